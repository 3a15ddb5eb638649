from cv.model import *
import itertools
ID = "C07"
CASES = dict(quick=560, thorough=12000)
RULE = "pairs of random triangles of one grain whose index members and levels, columns, origins and ages are permuted, nested, partially overlapping or of length one, combined by every operator and compared cell by cell with a label join; distinct by pair shape and relation"
REQUIRE = {"chk:add": 60, "chk:sub": 60, "chk:mul": 60, "chk:div": 60, "chk:scalar": 60, "relation:index:permuted": 5, "relation:columns:partial": 5, "relation:origin:partial": 5, "relation:index:level": 5}


def dims(a, b, axis):
    """labels of the result along columns/origin/development and accessors"""
    if len(a) == 1 and len(b) > 1:
        return b, (lambda x: a[0]), (lambda x: x)
    if len(b) == 1 and len(a) > 1:
        return a, (lambda x: x), (lambda x: b[0])
    if len(a) == len(b) == 1:
        return a, (lambda x: x), (lambda x: b[0])
    return sorted(set(a) | set(b), key=str) if axis == 1 else sorted(set(a) | set(b)), (lambda x: x), (lambda x: x)


def index_pairs(A, B):
    """(result label tuple as dict, member of A or None, member of B or None)"""
    if len(A.kdims) == 1 and len(B.kdims) > 1:
        return [(dict(zip(B.key_labels, k)), A.kdims[0], k) for k in B.kdims]
    if len(B.kdims) == 1 and len(A.kdims) > 1:
        return [(dict(zip(A.key_labels, k)), k, B.kdims[0]) for k in A.kdims]
    if len(A.kdims) == len(B.kdims) == 1:
        w = A if A.key_labels == B.key_labels or len(A.key_labels) > len(B.key_labels) else B
        return [(dict(zip(w.key_labels, w.kdims[0])), A.kdims[0], B.kdims[0])]
    common = [l for l in A.key_labels if l in B.key_labels]
    ka = {k: tuple(k[A.key_labels.index(l)] for l in common) for k in A.kdims}
    kb = {k: tuple(k[B.key_labels.index(l)] for l in common) for k in B.kdims}
    out = []
    for k in A.kdims:
        m = [j for j in B.kdims if kb[j] == ka[k]]
        for j in m or [None]:
            lab = dict(zip(A.key_labels, k))
            if j is not None:
                lab.update(dict(zip(B.key_labels, j)))
            out.append((lab, k, j))
    for j in B.kdims:
        if kb[j] not in ka.values():
            out.append((dict(zip(B.key_labels, j)), None, j))
    return out


def expected(A, B, op):
    cols, ca, cb = dims(A.vdims, B.vdims, 1)
    oo, oa, ob = dims(A.odims, B.odims, 2)
    dd, da, db = dims(A.ddims, B.ddims, 3)
    look = lambda S: {(k, v, o, d): S.arr[i, j, p, q] for i, k in enumerate(S.kdims) for j, v in enumerate(S.vdims) for p, o in enumerate(S.odims) for q, d in enumerate(S.ddims)}
    la, lb = look(A), look(B)
    vd = max(A.vdate, B.vdate)
    big = A if len(A.ddims) >= len(B.ddims) else B
    out = {}
    for lab, ka, kb in index_pairs(A, B):
        for c in cols:
            for o in oo:
                for d in dd:
                    x = la.get((ka, ca(c), oa(o), da(d)), np.nan)
                    y = lb.get((kb, cb(c), ob(o), db(d)), np.nan)
                    mx, my = np.isnan(x) or x == 0, np.isnan(y) or y == 0
                    future = big.val(o, d) > vd
                    if op == "add":
                        r = np.nan_to_num(x) + np.nan_to_num(y)
                        r = 0.0 if future else r
                    elif op == "sub":
                        r = np.nan_to_num(x) - np.nan_to_num(y)
                        r = 0.0 if future else r
                    elif op == "mul":
                        r = 0.0 if (mx or my) else x * y
                    else:
                        r = 0.0 if (mx or my) else x / y
                    key = (tuple(sorted(lab.items())), c, o, d)
                    if r != 0:
                        out[key] = r
    return out


def got_cells(S):
    out = {}
    for i, k in enumerate(S.kdims):
        lab = tuple(sorted(dict(zip(S.key_labels, k)).items()))
        for j, v in enumerate(S.vdims):
            for p, o in enumerate(S.odims):
                for q, d in enumerate(S.ddims):
                    x = S.arr[i, j, p, q]
                    if not (np.isnan(x) or x == 0):
                        out[(lab, v, o, d)] = x
    return out


def case(ctx, i):
    rng = ctx.rng
    auto = bool(rng.random() < .5)
    with auto_sparse(auto):
        if rng.random() < .25:
            return scalar(ctx, rng)
        pair(ctx, rng)


def take(rng, seq, mode):
    """a related label subset"""
    seq = list(seq)
    if mode == "same" or len(seq) < 2:
        return seq
    if mode == "permuted":
        return [seq[j] for j in rng.permutation(len(seq))]
    if mode == "one":
        return [seq[int(rng.integers(len(seq)))]]
    return [seq[j] for j in rng.permutation(len(seq))[:int(rng.integers(2, len(seq) + 1))]] if len(seq) > 2 else seq


def pair(ctx, rng):
    s = gen_spec(rng, n_key=int(rng.choice([1, 2, 3, 4])), n_cols=int(rng.integers(1, 4)), max_cells=700)
    base = s.triangle()
    backends = [str(rng.choice(["numpy", "sparse"])) for _ in range(2)]
    rel = {ax: str(rng.choice(["same", "same", "permuted", "one", "partial"] if ax in ("index", "columns") else ["same", "same", "one", "partial", "step"])) for ax in ("index", "columns", "origin", "development")}
    lv = len(s.key_labels)
    level = lv > 1 and len(s.members) > 1 and rng.random() < .35
    A = base.copy()
    Bsrc = (base * 1.0).copy()
    noise = rng.normal(2, 1, base.shape)
    Bsrc = Bsrc.set_backend("numpy")
    Bsrc.values = np.where(np.isnan(Bsrc.values), np.nan, np.round(Bsrc.values * noise, 2))
    Bsrc.values = np.where((rng.random(base.shape) < .1) | (Bsrc.values == 0), np.nan, Bsrc.values)

    def cut(t, r):
        n = t.shape
        if r["index"] in ("permuted", "partial", "one"):
            pos = take(rng, range(n[0]), r["index"])
            t = t.iloc[[int(x) for x in pos]] if len(set(np.diff(pos))) > 1 or len(pos) < 3 or True else t
        if r["columns"] in ("permuted", "partial", "one"):
            t = t[[t.vdims[int(x)] for x in take(rng, range(n[1]), r["columns"])]]
        for ax, name in ((2, "origin"), (3, "development")):
            m = n[ax]
            if r[name] == "one":
                a = int(rng.integers(m)); sl = slice(a, a + 1)
            elif r[name] == "partial" and m > 2:
                a = int(rng.integers(0, m - 1)); sl = slice(a, int(rng.integers(a + 2, m + 1)))
            elif r[name] == "step" and m > 3:
                sl = slice(int(rng.integers(0, 2)), None, 2)
            else:
                continue
            t = t.iloc[:, :, sl, :] if ax == 2 else t.iloc[..., sl]
        return t
    ra = {k: (v if rng.random() < .3 else "same") for k, v in rel.items()}
    if rng.random() < .6:
        ra = {k: "same" for k in rel}
    A = cut(A, ra)
    if level:
        keep = list(rng.permutation(s.key_labels)[:int(rng.integers(1, lv))])
        keep = [str(k) for k in keep]
        Bsrc = Bsrc.groupby(keep).sum()
        rel["index"] = "same" if rel["index"] == "one" else rel["index"]
    B = cut(Bsrc, rel)
    if rng.random() < .15 and lv > 1 and not level:
        # same levels stored in another order
        order = [str(x) for x in rng.permutation(B.key_labels)]
        B.kdims = B.index[order].values
        B.key_labels = order
    A, B = A.set_backend(backends[0]), B.set_backend(backends[1])
    if rng.random() < .3:
        A, B = B, A
    for k, v in rel.items():
        ctx.event(f"relation:{k}:{v}")
    if level:
        ctx.event("relation:index:level")
    a, b = Snap(A), Snap(B)
    if not a.cells() or not b.cells():
        raise Skip()
    if len(a.kdims) > 1 and len(b.kdims) > 1:
        x, y = set(a.key_labels), set(b.key_labels)
        common = x & y
        if common != x and common != y:
            raise Skip()
        for S in (a, b):
            if common and common == set(S.key_labels) and len(set(S.kdims)) != len(S.kdims):
                raise Skip()
        if x != y:
            # a label of the narrower operand that the wider one lacks has no
            # complete label of its own
            n, w = (a, b) if len(x) < len(y) else (b, a)
            proj = {tuple(k[w.key_labels.index(l)] for l in n.key_labels) for k in w.kdims}
            if not set(n.kdims) <= proj:
                raise Skip()
    ctx.note(spec=brief(s), rel=str(rel), ra=str(ra), level=bool(level), backends=str(backends), shapes=f"{a.shape} {b.shape}")
    ctx.sig = [brief(s), rel, ra, level, backends]
    import operator
    for op, fn in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("div", operator.truediv)):
        r = ctx.call(op, fn, A, B)
        g = Snap(r)
        ctx.must(g.shape_ok(), op + ":shape", f"{g.arr.shape} {len(g.kdims)} {len(g.vdims)} {len(g.odims)} {len(g.ddims)}")
        exp = expected(a, b, op)
        ctx.check(np.isfinite(g.arr[~np.isnan(g.arr)]).all(), op + ":infinite", "infinite cells")
        same_cells(ctx, op, got_cells(g), exp, 1e-8, 1e-6, f"{op} {rel}")
        ctx.check(g.vdate == max(a.vdate, b.vdate), op + ":valuation_date", f"{g.vdate} {a.vdate} {b.vdate}")
        ctx.check(len(set(g.vdims)) == len(g.vdims) and len(set(g.odims)) == len(g.odims) and len(set(g.ddims)) == len(g.ddims), op + ":labels")
        ctx.check(len(set(g.kdims)) == len(g.kdims) or len(set(a.kdims)) != len(a.kdims) or len(set(b.kdims)) != len(b.kdims), op + ":labels", f"{g.kdims}")
    ctx.check(Snap(A).fingerprint() == a.fingerprint(), "operand_changed")
    ctx.check(Snap(B).fingerprint() == b.fingerprint(), "operand_changed")


def scalar(ctx, rng):
    s = gen_spec(rng, max_cells=700)
    t = s.triangle().set_backend(str(rng.choice(["numpy", "sparse"])))
    if rng.random() < .2:
        t = t.dev_to_val()
    o = Snap(t)
    c = round(float(rng.choice([2.0, -3.0, 0.5, 7.25, 1.0])), 2)
    ctx.note(spec=brief(s), scalar=c); ctx.sig = ["scalar", brief(s), c, o.is_val, o.backend]
    known = np.array([[o.val(w, d) <= o.vdate for d in o.ddims] for w in o.odims])
    x = np.nan_to_num(o.arr)
    miss = x == 0
    inv = np.where(miss, 0, 1 / np.where(miss, 1, x))
    forms = dict(add=(lambda: t + c, (x + c) * known), radd=(lambda: c + t, (x + c) * known), sub=(lambda: t - c, (x - c) * known), rsub=(lambda: c - t, (c - x) * known),
                 mul=(lambda: t * c, x * c), rmul=(lambda: c * t, x * c), div=(lambda: t / c, x / c), rdiv=(lambda: c / t, c * inv),
                 neg=(lambda: -t, -x), abs=(lambda: abs(t), np.abs(x)), pow=(lambda: t ** 2, x ** 2), pos=(lambda: +t, x), round=(lambda: round(t, 1), np.round(x, 1)),
                 lt=(lambda: t < 500.0, (x < 500.0)), le=(lambda: t <= float(x.max()), x <= x.max()))
    for k, (fn, exp) in forms.items():
        r = ctx.call(k, fn)
        g = dense(r.values)
        exp = np.broadcast_to(np.asarray(exp, float), o.arr.shape)
        ctx.event("cells_compared", exp.size)
        if ctx.check(g.shape == exp.shape, "scalar:" + k, f"{g.shape}"):
            ctx.check(close(np.nan_to_num(g), exp, 1e-9, 1e-9), "scalar:" + k, lambda: k + " " + first_diff(np.nan_to_num(g), exp))
        gm, om = Snap(r).meta(), o.meta()
        ctx.check(gm == om, "scalar:meta", f"{k}: {gm} {om}"[:300])
    # an array operand broadcasts over the four axes
    f = rng.uniform(.5, 2, (1, 1, o.shape[2], 1)) if rng.random() < .5 else rng.uniform(.5, 2, (o.shape[0], o.shape[1], 1, o.shape[3]))
    for k, fn, exp in (("mul", lambda: t * f, x * f), ("div", lambda: t / f, x / f), ("add", lambda: t + f, (x + f) * known), ("sub", lambda: t - f, (x - f) * known)):
        g = np.nan_to_num(dense(ctx.call("array_" + k, fn).values))
        ctx.check(close(g, exp, 1e-9, 1e-9), "scalar:array", lambda: k + " " + first_diff(g, exp))
    ctx.check(bool(t == t.copy()), "scalar:eq")
    u = t.copy().set_backend("numpy")
    p = tuple(int(v) for v in np.argwhere(~miss)[int(rng.integers((~miss).sum()))])
    u.values[p] += 1.0
    ctx.check(not bool(u == t), "scalar:eq")
    ctx.check(near(np.nan_to_num(dense(sum([t, t]).values)[p]), 2 * x[p]), "scalar:sum_builtin")
    ctx.check(Snap(t).fingerprint() == o.fingerprint(), "operand_changed")
