"""Contract of merge_oi_target: the merged target table."""
from spec_merge2 import *
from spec_merge2 import SPECS as _S

SPECS = dict(_S)
TBEF = z3.Function("targets_before", I, I)                  # number of targets in the inputs before the m-th
FM = z3.Function("first_input_with", STR, I)                # first input with a target of that name
FI = z3.Function("first_index_of", STR, I)                  # ... and the first such row of it
s_ = z3.Const("s", STR)
u_ = z3.Int("u")
W_ = z3.Int("input_with_targets")
N0_ = z3.Const("name_of_one_target", STR)
NEWID = ("target_id", "category")


def tt(v, D):
    return DS(v, D).targets()


def ntg(v, D):
    return v.f(tt(v, D), "oi_target.ntarget")


def row_(v, D, k):
    return Ptr(v.f(tt(v, D), "oi_target.targ").b, k)


def tname(v, D, k):
    return v.f(row_(v, D, k), "target.target")


def before(m, i, M, J):
    """target i of input m comes before (M, J)"""
    return z3.Or(m < M, z3.And(m == M, i < J))


def t_pre(c):
    v = c.old
    n = nin(v, c.inl)
    D = inp(v, c.inl, m_)
    gm = rng(m_, n)
    out = [("inputs", z3.And(c.inl.i == 0, c.inl.b >= 0, c.inl.b < v.next, z3.Or(c.inl.b == 0, v.llen(c.inl.b) > 0))),
           ("input", FA([m_], IMP(gm, z3.And(obj(v, D, "oi_fits"), D.b > 0, D.b < v.next, tag(D.b) == 0, D.b != c.out.b)), D.b)),
           ("out", z3.And(obj(v, c.out, "oi_fits"), c.out.b > 0, c.out.b < v.next, tag(c.out.b) == 0, c.out.i == 0)),
           ("some_target", z3.And(rng(W_, n), ntg(v, inp(v, c.inl, W_)) > 0, N0_ == tname(v, inp(v, c.inl, W_), ZERO))),
           ("def.count0", TBEF(ZERO) == 0),
           ("def.count", FA([m_], IMP(gm, TBEF(m_ + 1) == TBEF(m_) + ntg(v, D)), D.b)),
           ("def.total", FA([m_], IMP(z3.And(0 <= m_, m_ <= n), z3.And(0 <= TBEF(m_), TBEF(m_) <= TBEF(n))), TBEF(m_)))]
    for nm, g in DS(v, D).wf_targets():
        out.append((nm, FA([m_], IMP(gm, z3.And(g, z3.Or(ntg(v, D) == 0, z3.And(v.f(tt(v, D), "oi_target.targ").i == 0, v.f(tt(v, D), "oi_target.targ").b > 0,
                                                                                v.f(tt(v, D), "oi_target.targ").b < v.next)))), D.b)))
    nm = tname(v, D, q_)
    f = Ptr(z3.IntVal(0), ZERO)
    Df = inp(v, c.inl, FM(nm))
    out.append(("def.first", FA([m_, q_], IMP(z3.And(gm, rng(q_, ntg(v, D))), z3.And(
        rng(FM(nm), n), rng(FI(nm), ntg(v, Df)), tname(v, Df, FI(nm)) == nm, before(FM(nm), FI(nm), m_, q_ + 1))), nm)))
    return out


def rows(vn, vo, c, q, lim=None):
    """row q of the merged table: [(name, formula)]"""
    R = row_(vn, c.out, q)
    s = tname(vn, c.out, q)
    D = inp(vo, c.inl, FM(s))
    S = row_(vo, D, FI(s))
    g = [rng(FM(s), nin(vo, c.inl)), rng(FI(s), ntg(vo, D)), vo.f(S, "target.target") == s]
    if lim is not None:
        g.append(before(FM(s), FI(s), *lim))
    out = [("value:source", z3.And(*g)), ("count:target_id", vn.f(R, "target.target_id") == q + 1)]
    for f, t in scalars(vn.ex, "target"):
        if f not in NEWID:
            out.append(("value:" + f, vn.f(R, "target." + f) == vo.f(S, "target." + f)))
    cat = vo.f(tt(vo, D), "oi_target.usecategory") != 0
    out.append(("value:category", vn.f(R, "target.category") == z3.If(cat, vo.f(S, "target.category"), slit(""))))
    out.append(("value:usecategory", IMP(cat, vn.f(tt(vn, c.out), "oi_target.usecategory") != 0)))
    return out


def known(vn, vo, c, h, s):
    """what the hash table says about a name it has"""
    x = Ptr(sel(vn.map("HVb"), h.b, s), sel(vn.map("HVi"), h.b, s))
    val = vn.h("int", x)
    return [("cell", z3.And(x.i == 0, x.b >= vo.next, x.b < vn.next, tag(x.b) == 0, vn.len(x.b) >= 4, x.b != vn.f(tt(vn, c.out), "oi_target.targ").b)),
            ("id", z3.And(1 <= val, val <= ntg(vn, c.out))),
            ("leads", tname(vn, c.out, val - 1) == s)]


def listed(vn, c, h, q):
    s = tname(vn, c.out, q)
    x = Ptr(sel(vn.map("HVb"), h.b, s), sel(vn.map("HVi"), h.b, s))
    return z3.And(sel(vn.map("HHas"), h.b, s), vn.h("int", x) == q + 1)


def t_post(c):
    v, o = c.new, c.old
    n = nin(o, c.inl)
    D = inp(o, c.inl, m_)
    N = ntg(v, c.out)
    gq = rng(q_, N)
    pat = tname(v, c.out, q_)
    out = [("count:ntarget", z3.And(0 < N, N <= TBEF(n))), ("ref:hash", z3.And(c.ret.b >= o.next, c.ret.b < v.next, c.ret.i == 0)),
           ("shape.rows", z3.And(v.f(tt(v, c.out), "oi_target.targ").b >= o.next, v.f(tt(v, c.out), "oi_target.targ").i == 0,
                                 live(v, v.f(tt(v, c.out), "oi_target.targ"), N * ssize(c.ex, "target"))))]
    for nm, g in rows(v, o, c, q_):
        out.append((nm, FA([q_], IMP(gq, g), pat)))
    out.append(("ref:listed", FA([q_], IMP(gq, listed(v, c, c.ret, q_)), pat)))
    has = sel(v.map("HHas"), c.ret.b, s_)
    for nm, g in known(v, o, c, c.ret, s_):
        out.append(("ref:" + nm, FA([s_], IMP(has, g), has)))
    x = tname(o, D, u_)
    out.append(("ref:every_target", FA([m_, u_], IMP(z3.And(rng(m_, n), rng(u_, ntg(o, D))), sel(v.map("HHas"), c.ret.b, x)), x)))
    out.append(("count:unique", FA([p_, q_], IMP(z3.And(rng(p_, N), gq, p_ != q_), tname(v, c.out, p_) != pat), (tname(v, c.out, p_), pat))))
    rv = v.f(tt(v, c.out), "oi_target.revision")
    ri = o.f(tt(o, D), "oi_target.revision")
    out.append(("value:revision", z3.And(rv >= 2, FA([m_], IMP(rng(m_, n), rv >= ri), ri))))
    out.append(("value:revision_source", z3.Or(rv == 2, z3.Exists([m_], z3.And(rng(m_, n), rv == ri)))))
    return out


def t_tmpl(c, L):
    ex, o = L.ex, c.old
    out = []
    islist = [k for k, v in L.s0.env.items() if L.is_list(k) and k[-1] != "inList" and isinstance(v, Ptr)]
    cur = [k for k in islist if k in L.modenv and L.s0.env[k].b.eq(c.inl.b)]
    T = lambda st: tt(V(ex, st), c.out)
    hs = [k for k, x in L.s0.env.items() if isinstance(x, Ptr) and "GHashTable" in (ex.ptrtypes.get(k) or "") and k not in L.modenv]
    if cur:
        k = cur[0]
        pos = L.pos(k, L.s0.env[k])
        c.defs["cursor"] = k
        for nm, g in L.ints:
            out.append(Cand("%s=targets" % nm, lambda st, g=g: g(st) == TBEF(pos(st))))
        lims = [("all", lambda st: (pos(st), ZERO))]
    elif "cursor" in c.defs:
        k = c.defs["cursor"]
        lims = [(nm, lambda st, g=g: (ex.to_ptr(st.env[k]).i, g(st))) for nm, g in L.ints]
    else:
        return out
    hs = [h for h in hs if h[-1] == "targetIdHash" or True]
    for h in hs:
        H = lambda st, h=h: ex.to_ptr(st.env[h])
        if L.s0.env[h].b.get_id() in ex.uninit:
            continue
        for ln, lim in lims:
            out.append(Cand("bound[%s]" % ln, lambda st, lim=lim: z3.And(
                0 <= ntg(V(ex, st), c.out), ntg(V(ex, st), c.out) <= TBEF(lim(st)[0]) + lim(st)[1])))
            rr = rows(V(ex, L.s0), o, c, q_, (ZERO, ZERO))
            for y in range(len(rr)):
                def f(st, y=y, lim=lim):
                    v = V(ex, st)
                    return FA([q_], IMP(rng(q_, ntg(v, c.out)), rows(v, o, c, q_, lim(st))[y][1]), tname(v, c.out, q_))
                out.append(Cand("row.%s[%s]" % (rr[y][0], ln), f))

            def seen(st, lim=lim, H=H):
                v = V(ex, st)
                D = inp(o, c.inl, m_)
                x = tname(o, D, u_)
                return FA([m_, u_], IMP(z3.And(rng(m_, nin(o, c.inl)), rng(u_, ntg(o, D)), before(m_, u_, *lim(st))), sel(v.map("HHas"), H(st).b, x)), x)
            out.append(Cand("seen[%s]" % ln, seen))

            def rev(st, lim=lim):
                v = V(ex, st)
                D = inp(o, c.inl, m_)
                r = v.f(T(st), "oi_target.revision")
                ri = o.f(tt(o, D), "oi_target.revision")
                return z3.And(r >= 2, FA([m_], IMP(z3.And(0 <= m_, m_ < lim(st)[0] + (0 if cur else 1)), r >= ri), ri))
            out.append(Cand("revision[%s]" % ln, rev))

            def revs(st, lim=lim):
                v = V(ex, st)
                D = inp(o, c.inl, m_)
                r = v.f(T(st), "oi_target.revision")
                return z3.Or(r == 2, z3.Exists([m_], z3.And(rng(m_, nin(o, c.inl)), r == o.f(tt(o, D), "oi_target.revision"))))
            out.append(Cand("revision_source[%s]" % ln, revs))

        def lst(st, H=H):
            v = V(ex, st)
            return FA([q_], IMP(rng(q_, ntg(v, c.out)), listed(v, c, H(st), q_)), tname(v, c.out, q_))
        out.append(Cand("listed", lst))
        kn = known(V(ex, L.s0), o, c, Ptr(ZERO, ZERO), s_)
        for y in range(len(kn)):
            def f(st, y=y, H=H):
                v = V(ex, st)
                has = sel(v.map("HHas"), H(st).b, s_)
                return FA([s_], IMP(has, known(v, o, c, H(st), s_)[y][1]), has)
            out.append(Cand("known." + kn[y][0], f))
    return out


SPECS["merge_oi_target"] = Contract(
    "merge_oi_target", ["inl", "out"], t_pre, t_post, mod=lambda c: [("oi_target", tt(c.old, c.out))], templates=[t_tmpl],
    config=dict(own=False, paths=True, cand_timeout=20000, nometa=["F:oi_target.usecategory"],
                noframe0=["HHas", "HVb", "HVi", "F:oi_target.ntarget", "F:oi_target.revision", "F:oi_target.usecategory"] +
                ["F:target." + f for f in ("target_id", "target", "raep0", "decep0", "equinox", "ra_err", "dec_err", "sysvel", "veltyp", "veldef",
                                           "pmra", "pmdec", "pmra_err", "pmdec_err", "parallax", "para_err", "spectyp", "category")]))
