"""Contracts of the functions that merge the named tables (OI_ARRAY, OI_WAVELENGTH, OI_CORR) and of table matching."""
import struct
from spec_merge import *
from spec_merge import SPECS as _S
from spec_file import first_match

SPECS = dict(_S)
KEY = dict(array="arrname", wavelength="insname", corr="corrname")
HASH = dict(array="arrayHash", wavelength="wavelengthHash", corr="corrHash")
e_ = z3.Int("e")
TOL = flit(1e-10)
FTOL = flit(struct.unpack("f", struct.pack("f", 1e-3))[0])


def far(ty, a, b, tol=TOL, strict=True):
    x = fop("ffabs", 1)(fop("fsub_" + ty)(a, b))
    return flt(tol, x) if strict else fle(tol, x)


def near(ty, a, b, same, tol=TOL, strict=True):
    """the values count as equal; same: so do identical values (a copy is equivalent to the original, whatever it holds)"""
    r = z3.Not(far(ty, a, b, tol, strict))
    return z3.Or(r, a == b) if same else r


def close_wavelength(vq, Q, vp, P, same):
    """[(name, vars, formula, pattern)]: wavelength table Q has the same channels as P"""
    n = vp.f(P, "oi_wavelength.nwave")
    out = [("nwave", [], vq.f(Q, "oi_wavelength.nwave") == n, None)]
    for a in ("eff_wave", "eff_band"):
        x, y = vq.h("float", vq.a(Q, "oi_wavelength." + a), k_), vp.h("float", vp.a(P, "oi_wavelength." + a), k_)
        out.append((a, [k_], IMP(rng(k_, n), near("float", x, y, same, TOL, False)), y))
    return out


def close_element(vq, Q, e, vp, P, k, same):
    a, b = at(rec(vq, "array", Q), e), at(rec(vp, "array", P), k)
    f, g = (lambda n: vq.f(a, "element." + n)), (lambda n: vp.f(b, "element." + n))
    out = [f("sta_index") == g("sta_index")]
    for j in range(3):
        out.append(near("double", sel(f("staxyz"), z3.IntVal(j)), sel(g("staxyz"), z3.IntVal(j)), same))
    out.append(near("float", f("diameter"), g("diameter"), same, FTOL))
    v2 = z3.And(vp.f(P, "oi_array.revision") >= 2, vq.f(Q, "oi_array.revision") >= 2)
    out.append(IMP(v2, z3.And(near("double", f("fov"), g("fov"), same), f("fovtype") == g("fovtype"))))
    return z3.And(*out)


def close_array(vq, Q, vp, P, same):
    """array Q has the centre of P and all its stations"""
    out = [(x, [], near("double", vq.f(Q, "oi_array." + x), vp.f(P, "oi_array." + x), same), None) for x in ("arrayx", "arrayy", "arrayz")]
    b = vp.f(at(rec(vp, "array", P), k_), "element.sta_index")
    out.append(("stations", [k_], IMP(rng(k_, nrec(vp, "array", P)), z3.Exists([e_], z3.And(
        rng(e_, nrec(vq, "array", Q)), close_element(vq, Q, e_, vp, P, k_, same)))), b))
    return out


def close_corr(vq, Q, vp, P, same):
    out = []
    for nm, g in spec_dup.copied(vq, vp, "corr", Q, P):
        if nm != "corrname":
            out.append(unq(nm, g))
    return out


CLOSE = dict(wavelength=close_wavelength, array=close_array, corr=close_corr)


def wf_list(v, K, l):
    """non-empty or NULL list of well-formed tables"""
    T = v.ld(l.b, t_)
    g = z3.And(l.b != 0, rng(t_, v.llen(l.b)))
    out = [("list", z3.And(l.i == 0, z3.Or(l.b == 0, z3.And(l.b > 0, v.llen(l.b) > 0, l.b < v.next))))]
    for nm, f in wf(v, K, T):
        out.append((nm, FA([t_], IMP(g, f), T.b)))
    return out


SPECS["lookup_element"] = Contract(
    "lookup_element", ["p", "key"], lambda c: wf(c.old, "array", c.p),
    lambda c: first_match(c, nrec(c.old, "array", c.p), lambda k: c.old.f(at(rec(c.old, "array", c.p), k), "element.sta_index") == c.key,
                          rec(c.old, "array", c.p), "element"),
    templates=[lambda c, L: range_cands(L, "nomatch", lambda v, k: (
        c.old.f(at(rec(c.old, "array", c.p), k), "element.sta_index") != c.key, None))], helper=True)


def mk_match(K):
    def post(c):
        v = c.old
        Q = c.ret
        found = Q.b != 0
        out = [("member", IMP(found, z3.And(Q.i == 0, c.list.b != 0, z3.Exists([t_], z3.And(
            rng(t_, v.llen(c.list.b)), v.ld(c.list.b, t_).b == Q.b, v.ld(c.list.b, t_).i == 0)))))]
        for nm, xs, g, pat in CLOSE[K](v, Q, v, c.p, False):
            out.append(("equivalent:" + nm, IMP(found, g) if not xs else IMP(found, FA(xs, g, pat))))
        return out

    def tm(c, L):
        out = []
        v = c.old
        qs = [(k, x) for k, x in L.s0.env.items() if isinstance(x, Ptr) and KINDS[K]["s"] in (L.ex.ptrtypes.get(k) or "") and k not in L.modenv]
        for key, Q in qs:
            for nm, xs, g, pat in CLOSE[K](v, Q, v, c.p, False):
                if xs:
                    for mn, mg in L.metas():
                        out.append(Cand("equivalent:%s@%s[<%s]" % (nm, key[-1], mn), lambda st, g=g, mg=mg, pat=pat: FA(
                            [k_], IMP(rng(k_, mg(st)), IMP(True, g)), pat)))
        return out
    SPECS["match_oi_" + K] = Contract("match_oi_" + K, ["p", "list"], lambda c: wf(c.old, K, c.p) + wf_list(c.old, K, c.list), post, templates=[tm],
                                      helper=True)


for K in ("wavelength", "array"):
    mk_match(K)


# ------------------------------------------------------------------ the merge itself
def mk_names(K):
    d = KINDS[K]
    s, rs = d["s"], d["r"]
    key, hname = KEY[K], HASH[K]
    name = "merge_all_oi_" + K

    def total(v, c):
        return NBEF[K](nin(v, c.inl))

    def ohash(v, c):
        return v.f(c.out, OF + hname)

    def pre(c):
        v = c.old
        n = nin(v, c.inl)
        N = total(v, c)
        gm = rng(m_, n)
        D = inp(v, c.inl, m_)
        x_ = z3.Const("s", STR)
        has = sel(v.map("HHas"), ohash(v, c).b, x_)
        out = [("inputs", z3.And(c.inl.i == 0, c.inl.b >= 0, c.inl.b < v.next, z3.Or(c.inl.b == 0, v.llen(c.inl.b) > 0))),
               ("input", FA([m_], IMP(gm, z3.And(obj(v, D, "oi_fits"), D.b > 0, D.b < v.next, tag(D.b) == 0, D.b != c.out.b)), D.b)),
               ("out", z3.And(obj(v, c.out, "oi_fits"), c.out.b > 0, c.out.b < v.next, tag(c.out.b) == 0)),
               ("out_empty", z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0, v.f(c.out, OF + NUMS[K]) == 0)),
               ("out_hash", z3.And(ohash(v, c).b > 0, ohash(v, c).b < v.next, ohash(v, c).i == 0)),
               ("out_no_names", FA([x_], z3.Not(has), has))]
        l = DS(v, D).L(K)
        out.append(("def.count0", NBEF[K](ZERO) == 0))
        out.append(("def.count", FA([m_], IMP(gm, NBEF[K](m_ + 1) == NBEF[K](m_) + ntab(v, c.inl, K, m_)), D.b)))
        T = v.ld(l.b, t_)
        x = NBEF[K](m_) + t_
        out.append(("def.table", FA([m_, t_], IMP(z3.And(gm, l.b != 0, rng(t_, v.llen(l.b))), z3.And(
            T.b == SRC[K](x), T.i == 0, INP[K](x) == m_, x < N)), T.b)))
        out.append(("def.input_of", FA([p_], IMP(rng(p_, N), z3.And(rng(INP[K](p_), n), NBEF[K](INP[K](p_)) <= p_, p_ < NBEF[K](INP[K](p_) + 1))), INP[K](p_))))
        out.append(("def.order", FA([p_, q_], IMP(z3.And(0 <= p_, p_ <= q_, q_ < N), INP[K](p_) <= INP[K](q_)), (INP[K](p_), INP[K](q_)))))
        out.append(("def.before", FA([p_, m_], IMP(z3.And(rng(p_, N), 0 <= m_, m_ <= n), (p_ < NBEF[K](m_)) == (INP[K](p_) < m_)),
                                     (INP[K](p_), NBEF[K](m_)))))
        out.append(("def.total", FA([m_], IMP(z3.And(0 <= m_, m_ <= n), NBEF[K](m_) <= N), NBEF[K](m_))))
        out.append(("lists", FA([m_], IMP(gm, z3.And(l.i == 0, NBEF[K](m_) >= 0, z3.Or(l.b == 0, z3.And(v.llen(l.b) > 0, l.b < v.next, l.b > 0)))), l.b)))
        g = rng(p_, N)
        P = src(K, p_)
        out.append(("table", FA([p_], IMP(g, z3.And(P.b < v.next, P.b > 0, tag(P.b) == 0)), P.b)))
        for nm, f in wf(v, K, P):
            out.append((nm, FA([p_], IMP(g, f), P.b)))
        out.append(("names_fit", FA([p_], IMP(g, slen(v.f(P, s + "." + key)) < FLEN), P.b)))
        P2 = src(K, q_)
        out.append(("distinct_names", FA([p_, q_], IMP(z3.And(g, rng(q_, N), p_ != q_, INP[K](p_) == INP[K](q_)),
                                                      v.f(P, s + "." + key) != v.f(P2, s + "." + key)), (P.b, P2.b))))
        return out

    def renamed(vn, vo, c, hl, p):
        """where the name of the p-th input table leads: [(name, vars, formula, pattern)]"""
        P = src(K, p)
        nm = vo.f(P, s + "." + key)
        h = vn.ld(hl.b, INP[K](p))
        x = sel(vn.map("HVb"), h.b, nm)
        Q = Ptr(invb(x), ZERO)
        out = [("known", [], z3.And(sel(vn.map("HHas"), h.b, nm), sel(vn.map("HVi"), h.b, nm) == 0, x == emb("%s.%s" % (s, key), Q.b, ZERO)), None),
               ("fresh", [], z3.And(Q.b >= vo.next, Q.b < vn.next, tag(Q.b) == 0), None)]
        qn = vn.f(Q, s + "." + key)
        oh = ohash(vn, c)
        out.append(("registered", [], z3.And(sel(vn.map("HHas"), oh.b, qn), sel(vn.map("HVb"), oh.b, qn) == Q.b, sel(vn.map("HVi"), oh.b, qn) == 0, slen(qn) < FLEN), None))
        arrs = [rec(vn, K, Q)] if d["r"] else [vn.f(Q, "%s.%s" % (s, a)) for a, ty, ln in d["tarrs"]]
        out.append(("storage", [], z3.And(*[z3.And(a.b >= vo.next, a.b < vn.next) for a in arrs]), None))
        for n, xs, g, pat in CLOSE[K](vn, Q, vo, P, True):
            out.append(("equivalent:" + n, xs, g, pat))
        return out

    def tables(vn, vo, c, q):
        """the q-th table of the output"""
        Q = DS(vn, c.out).T(K, q)
        qn = vn.f(Q, s + "." + key)
        oh = ohash(vn, c)
        out = [("fresh", [], z3.And(Q.b >= vo.next, Q.b < vn.next, Q.i == 0, tag(Q.b) == 0), Q.b)]
        for nm, g in wf(vn, K, Q, own=True):
            out.append((nm, [], g, Q.b))
        if d["r"]:
            out.append(("fresh.records", [], rec(vn, K, Q).b >= vo.next, Q.b))
        else:
            out += [("fresh." + a, [], vn.f(Q, "%s.%s" % (s, a)).b >= vo.next, Q.b) for a, ty, ln in d["tarrs"]]
        out.append(("registered", [], z3.And(sel(vn.map("HHas"), oh.b, qn), sel(vn.map("HVb"), oh.b, qn) == Q.b, sel(vn.map("HVi"), oh.b, qn) == 0,
                                             slen(qn) < FLEN), Q.b))
        return out

    def hashes(vn, vo, hl, lim):
        h = vn.ld(hl.b, m_)
        h2 = vn.ld(hl.b, q_)
        return [("hash:new", FA([m_], IMP(rng(m_, lim), z3.And(h.b >= vo.next, h.b < vn.next, h.i == 0, tag(h.b) == 0, vn.len(h.b) >= 0)), h.b)),
                ("hash:distinct", FA([m_, q_], IMP(z3.And(rng(m_, lim), rng(q_, lim), m_ != q_), h.b != h2.b), (h.b, h2.b)))]

    def post(c):
        v, o = c.new, c.old
        D = DS(v, c.out)
        N = total(o, c)
        n = nin(o, c.inl)
        num = v.f(c.out, OF + NUMS[K])
        out = [("count:num", num == D.n(K)), ("list", z3.Or(D.L(K).b == 0, z3.And(D.L(K).i == 0, D.L(K).b >= o.next, D.L(K).b < v.next, v.llen(D.L(K).b) > 0))),
               ("maps", z3.And(c.ret.i == 0, nin(v, c.ret) == n, z3.Or(c.ret.b == 0, z3.And(c.ret.b >= o.next, c.ret.b < v.next))))]
        out += [("maps." + a, g) for a, g in hashes(v, o, c.ret, n)]
        for nm, xs, g, pat in renamed(v, o, c, c.ret, p_):
            out.append(("resolves:" + nm, quant([p_] + xs, rng(p_, N), g, None)))
        for nm, xs, g, pat in tables(v, o, c, t_):
            out.append(("table." + nm, quant([t_] + xs, rng(t_, num), g, pat)))
        if K == "corr":
            out.append(("count:all", num == N))
        return out

    def tmpl(c, L):
        ex, o = L.ex, c.old
        out = []
        num = lambda v: v.f(c.out, OF + NUMS[K])
        islist = [k for k, v in L.s0.env.items() if L.is_list(k)]
        mod = [k for k in islist if k in L.modenv]
        if not mod:
            return out
        roles = c.defs.setdefault("roles", {})
        for k in mod:
            v0 = L.s0.env[k]
            if v0.b.eq(c.inl.b) and k[-1] != "inList":
                roles["input"] = k
            if z3.is_int_value(v0.b) and v0.b.as_long() == 0:
                roles["maps"] = k
        out += fact_cand(L, "count", lambda v: num(v) == DS(v, c.out).n(K))
        if K == "corr":
            pass
        out += fact_cand(L, "list", lambda v: z3.Or(z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0),
                                                    z3.And(DS(v, c.out).L(K).i == 0, DS(v, c.out).L(K).b >= o.next, DS(v, c.out).L(K).b < v.next,
                                                           v.llen(DS(v, c.out).L(K).b) > 0)))
        b_ = z3.Int("b")
        for mp in ("LLen", "LDb", "LDi"):
            def kept(st, mp=mp):
                x = sel(ex.hget(st, mp), b_)
                return FA([b_], IMP(b_ < o.next, x == sel(o.map(mp), b_)), x)
            out.append(Cand("old_lists:" + mp, kept))
        if K == "wavelength":
            def kept2(st):
                x, y = sel(ex.hget(st, "H:float"), b_), sel(o.map("H:float"), b_)
                return FA([b_], IMP(z3.And(0 < b_, b_ < o.next), x == y), x, y)
            out.append(Cand("old_values", kept2))
        if "input" not in roles or "maps" not in roles:
            return out
        ki, km = roles["input"], roles["maps"]
        outer = ki in mod
        cur = [k for k in mod if k not in (ki, km)]
        posi = L.pos(ki, L.s0.env[ki])
        if outer:
            limits = [("all", lambda st: NBEF[K](posi(st)))]
            hlim = posi
        else:
            limits = [(k[-1], (lambda st, k=k: NBEF[K](st.env[ki].i) + L.pos(k, L.s0.env[k])(st))) for k in cur]
            hlim = lambda st: st.env[ki].i + 1
        maps = lambda st: ex.to_ptr(st.env[km])
        out.append(Cand("maps", lambda st: z3.And(maps(st).i == 0, nin(V(ex, st), maps(st)) == hlim(st), z3.Or(
            maps(st).b == 0, z3.And(maps(st).b >= o.next, maps(st).b < st.heap["NEXT"], maps(st).b != DS(V(ex, st), c.out).L(K).b)))))
        for y in range(2):
            out.append(Cand("maps%d" % y, lambda st, y=y: hashes(V(ex, st), o, maps(st), hlim(st))[y][1]))
        if not outer:       # the map of the current input is the list entry of that input
            for k, x in L.s0.env.items():
                if isinstance(x, Ptr) and k not in L.modenv and "GHashTable" in (ex.ptrtypes.get(k) or ""):
                    out.append(Cand("current:" + k[-1], lambda st, k=k: z3.And(
                        ex.to_ptr(st.env[k]).i == 0, V(ex, st).ld(maps(st).b, st.env[ki].i).b == ex.to_ptr(st.env[k]).b)))
        for ln, lim in limits:
            if K == "corr":
                out.append(Cand("n=%s" % ln, lambda st, lim=lim: num(V(ex, st)) == lim(st)))
            rn = renamed(V(ex, L.s0), o, c, Ptr(ZERO, ZERO), p_)
            for y in range(len(rn)):
                def f(st, y=y, lim=lim):
                    v = V(ex, st)
                    nm, xs, g, pat = renamed(v, o, c, maps(st), p_)[y]
                    return quant([p_] + xs, rng(p_, lim(st)), g, (SRC[K](p_), pat) if pat is not None else SRC[K](p_))
                out.append(Cand("resolves:%s[<%s]" % (rn[y][0], ln), f))
        tb = tables(V(ex, L.s0), o, c, t_)
        for y in range(len(tb)):
            def f(st, y=y):
                v = V(ex, st)
                nm, xs, g, pat = tables(v, o, c, t_)[y]
                return quant([t_] + xs, rng(t_, num(v)), g, pat)
            out.append(Cand("table." + tb[y][0], f))
        return out
    hm = lambda c: [(m, c.out.b) for m in LISTF(K)] + [(m, ohash(c.old, c).b) for m in ("HHas", "HVb", "HVi")]
    SPECS[name] = Contract(name, ["inl", "out"], pre, post, heapmod=hm, templates=[tmpl],
                           config=dict(own=True, paths=True, cand_timeout=20000, noframe0=LISTF(K) + ["HHas", "HVb", "HVi"],
                                       noframe=["LLen", "LDb", "LDi"]))


for K in KEY:
    mk_names(K)
