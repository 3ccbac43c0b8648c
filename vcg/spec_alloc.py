"""Contracts of alloc_oi_*, free_oi_* and of initialising and freeing whole datasets."""
from dataset import *
from spec_dup import record_bases

SPECS = {}
# dimensions in parameter order -> field holding each
DIMS = dict(array=["nelement"], target=["ntarget"], wavelength=["nwave"], corr=["ncorr"])


def dims(K):
    return DIMS.get(K, ["numrec", "nwave"])


def asize(c, ln):
    """array length in terms of the dimensions: 'nwave' or 'nwave2'"""
    return ln


def mk_alloc(K):
    d = KINDS[K]
    s, rs = d["s"], d["r"]
    ps = ["p"] + ["d_" + x for x in dims(K)]

    def pre(c):
        return [("object", z3.And(obj(c.old, c.p, s)))] + [("positive:" + x, getattr(c, "d_" + x) > 0) for x in dims(K)]

    def post(c):
        v, o = c.new, c.old
        out = [("count:" + x, v.f(c.p, "%s.%s" % (s, x)) == getattr(c, "d_" + x)) for x in dims(K)]
        out += [("storage:" + n, g) for n, g in wf(v, K, c.p, own=True)]
        if rs:
            r = rec(v, K, c.p)
            out.append(("new:records", r.b >= o.next))
            for a, ty, ln, cond in d["arrs"]:
                q = v.f(at(r, k_), "%s.%s" % (rs, a))
                if cond:
                    out.append(("absent:" + a, FA(k_, IMP(rng(k_, nrec(v, K, c.p)), q.b == 0), q.b)))
                    out.append(("absent:" + cond, v.f(c.p, "%s.%s" % (s, cond)) == 0))
                else:
                    out.append(("new:" + a, FA(k_, IMP(rng(k_, nrec(v, K, c.p)), q.b >= o.next), q.b)))
        else:
            for a, ty, ln in d["tarrs"]:
                out.append(("new:" + a, v.f(c.p, "%s.%s" % (s, a)).b >= o.next))
        keep = set(dims(K)) | {x for a in d.get("arrs", []) for x in [a[3]] if x}
        for f, t in scalars(c.ex, s):
            if f not in keep:
                out.append(("unchanged:" + f, v.f(c.p, s + "." + f) == o.f(c.p, s + "." + f)))
        return out

    def tmpl(c, L):
        out = []
        if not rs or not d["arrs"]:
            return out
        n0 = L.s0.heap["NEXT"]
        for base in record_bases(L, d):
            for a, ty, ln, cond in d["arrs"]:
                sf = "%s.%s" % (rs, a)

                def fn(v, k, ty=ty, ln=ln, cond=cond, sf=sf, base=base):
                    q = v.f(Ptr(base, k), sf)
                    if cond:
                        return q.b == 0, q.b
                    return z3.And(q.b >= n0, live(v, q, c.d_nwave * SZ[ty]), own_(v, q, sf, Ptr(base, k))), q.b
                out += range_cands(L, ("absent:" if cond else "live:") + a, fn)
        return out
    SPECS["alloc_oi_" + K] = Contract("alloc_oi_" + K, ps, pre, post, mod=lambda c: [(s, c.p)], templates=[tmpl], config=dict(own=True))


def owned(v, K, r):
    """predicate: block b is one of the arrays of the records at r"""
    d = KINDS[K]
    O = v.map("Own")

    def f(b):
        o = sel(O, b)
        return z3.And(z3.Or(*[tag(o) == emb_tag("%s.%s" % (d["r"], a[0])) for a in d["arrs"]]), invb(o) == r.b)
    return f


def mk_free(K):
    d = KINDS[K]
    s, rs = d["s"], d["r"]

    def pre(c):
        v = c.old
        if K == "target":       # a dataset without targets has no records
            r = rec(v, K, c.p)
            return [("target.object", obj(v, c.p, s)), ("target.records", z3.Or(r.b == 0, z3.And(
                c.p.b != r.b, r.b > 0, r.i == 0, tag(r.b) == 0, r.b < v.next, v.len(r.b) >= 0)))]
        if rs:
            r = rec(v, K, c.p)
            sep = z3.And(c.p.b != r.b, z3.Not(owned(v, K, r)(c.p.b))) if d["arrs"] else c.p.b != r.b
        else:
            sep = z3.And(*[c.p.b != v.f(c.p, "%s.%s" % (s, a)).b for a, ty, ln in d["tarrs"]])
        return wf(c.old, K, c.p, own=True) + [("table_separate", sep)]

    def arrays(v, c, k):
        r = rec(v, K, c.p)
        return [(a, cond, v.f(at(r, k), "%s.%s" % (rs, a))) for a, ty, ln, cond in d["arrs"]]

    def post(c):
        v, o = c.new, c.old
        out = []
        if rs:
            out.append(("released:records", IMP(rec(o, K, c.p).b != 0, v.len(rec(o, K, c.p).b) == -1)))
            n = nrec(o, K, c.p)
            for a, cond, q in arrays(o, c, k_):
                out.append(("released:" + a, FA(k_, IMP(AND(rng(k_, n), acond(o, K, c.p, cond)), v.len(q.b) == -1), q.b)))
        else:
            for a, ty, ln in d["tarrs"]:
                out.append(("released:" + a, v.len(o.f(c.p, "%s.%s" % (s, a)).b) == -1))
        return out

    def hm(c):
        v = c.old
        if not rs:
            return [("Len", v.f(c.p, "%s.%s" % (s, a)).b) for a, ty, ln in d["tarrs"]]
        return [("Len", rec(v, K, c.p).b)] + ([("Len", owned(v, K, rec(v, K, c.p)))] if d["arrs"] else [])

    def tmpl(c, L):
        out = []
        if not rs or not d["arrs"]:
            return out
        o, ex = c.old, L.ex
        r = rec(o, K, c.p)
        inset = owned(o, K, r)
        b = z3.Int("b")
        for mn, g in L.metas():
            for y, (a, cond, q) in enumerate(arrays(o, c, k_)):
                out.append(Cand("released:%s[<%s]" % (a, mn), lambda st, g=g, q=q, cond=cond: FA(
                    [k_], IMP(AND(rng(k_, g(st)), acond(o, K, c.p, cond)), V(ex, st).len(q.b) == -1), q.b)))

            def kept(st, g=g):
                x = V(ex, st).len(b)
                return FA([b], IMP(z3.And(b < o.next, z3.Not(z3.And(inset(b), invi(sel(o.map("Own"), b)) < g(st)))), x == o.len(b)), x)
            out.append(Cand("kept[<%s]" % mn, kept))
        return out
    SPECS["free_oi_" + K] = Contract("free_oi_" + K, ["p"], pre, post, heapmod=hm, templates=[tmpl], config=dict(own=True))


for K in KINDS:
    mk_alloc(K)
    mk_free(K)


# ------------------------------------------------------------------ whole datasets
LK = ["array", "wavelength", "corr", "inspol", "vis", "vis2", "t3", "flux"]
HASHES = ["arrayHash", "wavelengthHash", "corrHash"]
HDR = "origin date date_obs content telescop instrume observer insmode object referenc author prog_id procsoft obstech".split()


def init_post(c):
    v, o = c.new, c.old
    D = DS(v, c.p)
    H = D.header()
    out = [("empty:header." + f, v.f(H, "oi_header." + f) == EMPTY) for f in HDR]
    out += [("empty:targets", z3.And(v.f(D.targets(), "oi_target.ntarget") == 0, v.f(D.targets(), "oi_target.targ").b == 0,
                                     v.f(D.targets(), "oi_target.usecategory") == 0))]
    for K in LK:
        out.append(("empty:" + K, z3.And(v.f(c.p, OF + NUMS[K]) == 0, D.L(K).b == 0)))
    x = z3.Const("s", STR)
    hs = [v.f(c.p, OF + h) for h in HASHES]
    for n, h in zip(HASHES, hs):
        out.append(("empty:" + n, z3.And(h.b >= o.next, h.b < v.next, h.i == 0, v.len(h.b) >= 0)))
        out.append(("empty:keys:" + n, FA([x], z3.Not(sel(v.map("HHas"), h.b, x)), sel(v.map("HHas"), h.b, x))))
    out.append(("separate:hashes", z3.Distinct(*[h.b for h in hs])))
    return out


def list_tag(K):
    return "oi_fits.%s[]" % LISTS[K]


def chain(v, D, K, b, lim):
    """block b belongs to one of the first lim tables of the list: the table, its records or arrays, or their arrays"""
    d = KINDS[K]
    O = v.map("Own")

    def table(x):
        o = sel(O, x)
        return z3.And(tag(o) == emb_tag(list_tag(K)), invb(o) == D.b, 0 <= invi(o), invi(o) < lim)
    o1 = sel(O, b)
    fields = ["%s.%s" % (d["s"], d["ptr"])] if d["r"] else ["%s.%s" % (d["s"], a[0]) for a in d["tarrs"]]
    isrec = lambda o: z3.And(z3.Or(*[tag(o) == emb_tag(f) for f in fields]), table(invb(o)))
    out = [table(b), isrec(o1)]
    if d["r"] and d["arrs"]:
        out.append(z3.And(z3.Or(*[tag(o1) == emb_tag("%s.%s" % (d["r"], a[0])) for a in d["arrs"]]), isrec(sel(O, invb(o1)))))
    return z3.Or(*out)


def released(vn, vo, D, K, lim):
    """[(name, formula)]: everything belonging to the first lim tables (as in vo) is freed in vn"""
    d = KINDS[K]
    T = DS(vo, D).T(K, t_)
    g = rng(t_, lim)
    out = [("tables", FA([t_], IMP(g, vn.len(T.b) == -1), T.b))]
    if d["r"]:
        r = rec(vo, K, T)
        out.append(("records", FA([t_], IMP(g, vn.len(r.b) == -1), r.b)))
        for a, ty, ln, cond in d["arrs"]:
            q = vo.f(at(r, k_), "%s.%s" % (d["r"], a))
            out.append((a, FA([t_, k_], IMP(AND(g, rng(k_, nrec(vo, K, T)), acond(vo, K, T, cond)), vn.len(q.b) == -1), q.b)))
    else:
        for a, ty, ln in d["tarrs"]:
            q = vo.f(T, "%s.%s" % (d["s"], a))
            out.append((a, FA([t_], IMP(g, vn.len(q.b) == -1), q.b)))
    return out


def owned_list(v, D, K):
    d = KINDS[K]
    X = DS(v, D)
    l, T = X.L(K), X.T(K, t_)
    g = z3.And(l.b != 0, rng(t_, v.llen(l.b)))
    out = [(K + ".list", z3.And(l.i == 0, z3.Or(l.b == 0, z3.And(v.llen(l.b) > 0, l.b < v.next, l.b > 0)))),
           (K + ".tables", FA([t_], IMP(g, z3.And(live(v, T, ssize(v.ex, d["s"])), sel(v.map("Own"), T.b) == emb(list_tag(K), D.b, t_))), T.b))]
    for nm, f in wf(v, K, T, own=True):
        if z3.is_quantifier(f):
            q = v.f(at(rec(v, K, T), k_), "%s.%s" % (d["r"], nm.split(".")[1]))
            out.append((nm, FA([t_, k_], IMP(g, z3.substitute_vars(f.body(), k_)), q.b)))
        else:
            out.append((nm, FA([t_], IMP(g, f), T.b)))
    return out


def ff_pre(c):
    v = c.old
    D = DS(v, c.p)
    out = [("dataset", z3.And(obj(v, c.p, "oi_fits"), tag(c.p.b) == 0, c.p.b < v.next))]
    O = v.map("Own")
    for K in LK:
        out += owned_list(v, c.p, K)
    ls = [D.L(K).b for K in LK]
    for a in range(len(ls)):
        for b in range(a):
            out.append(("separate:lists", z3.Or(ls[a] == 0, ls[a] != ls[b])))
    hs = [v.f(c.p, OF + h) for h in HASHES]
    r = v.f(D.targets(), "oi_target.targ")
    fixed = hs + [c.p]
    for h in hs:
        out.append(("hash", z3.And(h.b > 0, h.i == 0, tag(h.b) == 0, h.b < v.next, v.len(h.b) >= 0)))
    out.append(("targets", z3.Or(r.b == 0, z3.And(r.b > 0, r.i == 0, tag(r.b) == 0, r.b < v.next, v.len(r.b) >= 0,
                                                  own_(v, r, "oi_target.targ", D.targets()), *[r.b != h.b for h in fixed]))))
    out.append(("separate:hashes", z3.Distinct(*[h.b for h in fixed])))
    for h in fixed:     # the dataset and its hash tables are not part of any table
        out.append(("separate", sel(O, h.b) == 0))
    return out


def ff_post(c):
    v, o = c.new, c.old
    D = DS(o, c.p)
    out = []
    for K in LK:
        out += [("released:%s.%s" % (K, n), g) for n, g in released(v, o, c.p, K, D.n(K))]
        out.append(("released:%s.list" % K, IMP(D.L(K).b != 0, v.llen(D.L(K).b) == -1)))
    for h in HASHES:
        out.append(("released:" + h, v.len(o.f(c.p, OF + h).b) == -1))
    r = o.f(D.targets(), "oi_target.targ")
    out.append(("released:targets", IMP(r.b != 0, v.len(r.b) == -1)))
    b = z3.Int("b")
    touched = z3.Or(*[chain(o, c.p, K, b, D.n(K)) for K in LK], *[b == o.f(c.p, OF + h).b for h in HASHES], b == r.b)
    out.append(("only_own_blocks", FA([b], IMP(z3.And(b < o.next, z3.Not(touched)), v.len(b) == o.len(b)), v.len(b))))
    return out


def ff_tmpl(c, L):
    o, ex = c.old, L.ex
    out = []
    b = z3.Int("b")
    l0 = L.s0.heap["Len"] if "Len" in L.s0.heap else o.map("Len")
    for nm, key, v0 in L.lists:
        K = [K for K in LK if DS(o, c.p).L(K).b.eq(v0.b)]
        if not K:
            continue
        K = K[0]
        for mn, mg in [(n, g) for n, g in L.metas() if n == "pos(%s)" % nm]:
            for y, (cn, g) in enumerate(released(V(ex, L.s0), o, c.p, K, ZERO)):
                out.append(Cand("released:%s.%s[<%s]" % (K, cn, mn), lambda st, y=y, mg=mg, K=K: released(V(ex, st), o, c.p, K, mg(st))[y][1]))

            def kept(st, mg=mg, K=K):
                x = V(ex, st).len(b)
                return FA([b], IMP(z3.And(b < o.next, z3.Not(chain(o, c.p, K, b, mg(st)))), x == sel(l0, b)), x)
            out.append(Cand("kept:%s[<%s]" % (K, mn), kept))
    return out


for K in LK:
    emb(list_tag(K), ZERO, ZERO)
SPECS["init_oi_fits"] = Contract("init_oi_fits", ["p"], lambda c: [("dataset", obj(c.old, c.p, "oi_fits"))], init_post,
                                 mod=lambda c: [("oi_fits", c.p), ("oi_target", DS(c.old, c.p).targets()), ("oi_header", DS(c.old, c.p).header())],
                                 config=dict(own=True))
SPECS["free_oi_fits"] = Contract("free_oi_fits", ["p"], ff_pre, ff_post, templates=[ff_tmpl], config=dict(own=True, cand_timeout=15000),
                                 heapmod=lambda c: [("Len", lambda b: TRUE)] + [("LLen", DS(c.old, c.p).L(K).b) for K in LK])
