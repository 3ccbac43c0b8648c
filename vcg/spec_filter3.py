"""Contracts of the functions that filter all tables of one kind (filter_all_oi_*)."""
from spec_filter2 import *
from dataset import *

SELT = {K: z3.Function("selected_tables_" + K, I, z3.ArraySort(I, B)) for K in KINDS}   # input dataset -> tables kept
for n_ in ("array", "corr"):
    SPECS["dup_oi_" + n_] = spec_dup.SPECS["dup_oi_" + n_]
LISTF = lambda K: [("F:oi_fits.%s.b" % LISTS[K]), ("F:oi_fits.%s.i" % LISTS[K]), "F:oi_fits." + NUMS[K]]


def accept_kind(v, f, K):
    on = lambda n: v.f(f, FS + n) != 0
    return {"vis": on("accept_vis"), "vis2": on("accept_vis2"), "t3": z3.Or(on("accept_t3amp"), on("accept_t3phi")),
            "flux": on("accept_flux")}.get(K, TRUE)


def tnames(v, f, K, T):
    s = KINDS[K]["s"]
    names = dict(array=["arrname"], corr=["corrname"], wavelength=["insname"], inspol=["arrname"]).get(K, ["insname", "arrname", "corrname"])
    return z3.And(*[accn(v, f, n, v.f(T, "%s.%s" % (s, n))) for n in names])


def tuse(v, h, K, T):
    return hval(v, h, v.f(T, KINDS[K]["s"] + ".insname"))


def tU(v, h, K, T):
    return NZ(row(v, "char", sel(v.map("HVb"), h.b, v.f(T, KINDS[K]["s"] + ".insname"))))


def tW(v, D, K, T):
    return lookup(v, D, "wavelengthHash", v.f(T, KINDS[K]["s"] + ".insname"))


def table_rel(vn, vo, f, K, Q, P, U):
    """table Q (in vn) is the filtered table P (in vo): [(name, bound variables, formula, pattern)]"""
    d = KINDS[K]
    s, rs = d["s"], d["r"]
    nw = vo.f(P, s + ".nwave")
    n = nrec(vo, K, P)
    A_ = ACCA[K](P.b)
    M, N = CNT(U, nw), CNT(A_, n)
    out = [("count:nwave", [], vn.f(Q, s + ".nwave") == M, None), ("count:numrec", [], vn.f(Q, s + ".numrec") == N, None)]
    for fl, t in scalars(vn.ex, s):
        if fl not in ("nwave", "numrec"):
            out.append(("value:table." + fl, [], vn.f(Q, s + "." + fl) == vo.f(P, s + "." + fl), None))
    rq, rp = rec(vn, K, Q), rec(vo, K, P)
    for nm, xs, g, pat in related(vn, vo, f, K, rq.b, CNT(A_, k_), rp.b, k_, U, nw, M, topts(vo, K, P)):
        out.append((nm, [k_] + xs, IMP(z3.And(rng(k_, n), A_[k_]), g), pat))
    return out


def table_shape(vn, vo, K, Q):
    """table Q is well-formed, owns its storage, and all of it is newer than vo"""
    d = KINDS[K]
    rq = rec(vn, K, Q)
    out = [("fresh", [], z3.And(Q.b >= vo.next, Q.b < vn.next, Q.i == 0, tag(Q.b) == 0, rq.b >= vo.next), Q.b)]
    for nm, g in wf(vn, K, Q, own=True):
        if z3.is_quantifier(g):
            out.append((nm, [k_], z3.substitute_vars(g.body(), k_), vn.f(at(rq, k_), "%s.%s" % (d["r"], nm.split(".")[1])).b))
        else:
            out.append((nm, [], g, Q.b))
    for a, ty, ln, cond in d["arrs"]:
        q = vn.f(at(rq, k_), "%s.%s" % (d["r"], a))
        out.append(("fresh." + a, [k_], IMP(AND(rng(k_, nrec(vn, K, Q)), acond(vn, K, Q, cond)), q.b >= vo.next), q.b))
    return out


def quant(xs, guard, g, pat):
    body = IMP(guard, g)
    return FA(xs, body, pat) if pat is not None else FA(xs, body)


def unq(nm, g):
    """(name, variables, body, pattern) of a possibly quantified clause"""
    if not z3.is_quantifier(g):
        return nm, [], g, None
    xs = [z3.Const(g.var_name(k), g.var_sort(k)) for k in range(g.num_vars())]
    body = z3.substitute_vars(g.body(), *reversed(xs))
    x = body
    while z3.is_app_of(x, z3.Z3_OP_IMPLIES):
        x = x.arg(1)
    while z3.is_and(x):
        x = x.arg(0)
    return nm, xs, body, x.arg(0)


class Kind:
    """how the tables of one kind are filtered: parameters, what the table filter requires, which tables are kept, what becomes of them"""
    params = ["inp", "flt", "hash", "out"]
    hashname = None

    def __init__(self, K):
        self.K, self.s = K, KINDS[K]["s"]

    def shape(self, vn, vo, Q):
        return table_shape(vn, vo, self.K, Q)


class DataKind(Kind):
    def pre(self, c, v, D, g, T):
        K, s = self.K, self.s
        out = [("hash", c.hash.b != 0)]
        nw, n = v.f(T, s + ".nwave"), nrec(v, K, T)
        u, U = tuse(v, c.hash, K, T), tU(v, c.hash, K, T)
        out.append(("selections", FA([t_], IMP(z3.And(g, u.b != 0), z3.And(live(v, u, nw), CNT(U, nw) > 0)), T.b)))
        R = at(rec(v, K, T), k_)
        if K != "flux":
            W = tW(v, c.inp, K, T)
            out.append(("wave", FA([t_], IMP(g, wave_ok(v, W, nw)), T.b)))
        else:
            W = NULL
        o = OKC[K](R.b, k_, j_)
        out.append(("def_okc", FA([t_, k_, j_], IMP(z3.And(g, rng(k_, n), rng(j_, nw)), o == okc_formula(v, c.flt, K, R, W, j_)), o)))
        A_ = ACCA[K](T.b)
        out.append(("def_acc", FA([t_, k_], IMP(z3.And(g, rng(k_, n), u.b != 0), A_[k_] == acc_formula(v, c.flt, K, R, U, nw)), A_[k_])))
        return out

    def sel(self, c, v, T):
        return z3.And(accept_kind(v, c.flt, self.K), tnames(v, c.flt, self.K, T), tuse(v, c.hash, self.K, T).b != 0,
                      CNT(ACCA[self.K](T.b), nrec(v, self.K, T)) > 0)

    def rel(self, c, vn, vo, Q, P):
        return table_rel(vn, vo, c.flt, self.K, Q, P, tU(vo, c.hash, self.K, P))


class InspolKind(Kind):
    def pre(self, c, v, D, g, T):
        K = self.K
        n, nw = nrec(v, K, T), v.f(T, "oi_inspol.nwave")
        R = at(rec(v, K, T), k_)
        A_, W = ACCA[K](T.b), NWSEL(T.b)
        crit = icrit(v, c.flt, c.hash, R)
        s = CNT(iU(v, c.hash, R), nw)
        return [("hash", c.hash.b != 0),
                ("selections", FA([t_, k_], IMP(z3.And(g, rng(k_, n)), usew_ok(v, c.hash, R, nw)), v.f(R, "oi_inspol_record.insname"))),
                ("def_acc", FA([t_, k_], IMP(z3.And(g, rng(k_, n)), A_[k_] == z3.And(crit, z3.Or(CNT(A_, k_) == 0, s == W))), A_[k_])),
                ("def_first", FA([t_, k_], IMP(z3.And(g, rng(k_, n), crit, CNT(A_, k_) == 0), W == s), A_[k_]))]

    def sel(self, c, v, T):
        return z3.And(tnames(v, c.flt, self.K, T), CNT(ACCA[self.K](T.b), nrec(v, self.K, T)) > 0)

    def rel(self, c, vn, vo, Q, P):
        K = self.K
        n, nw = nrec(vo, K, P), vo.f(P, "oi_inspol.nwave")
        A_, W = ACCA[K](P.b), NWSEL(P.b)
        out = [("count:nwave", [], vn.f(Q, "oi_inspol.nwave") == W, None), ("count:numrec", [], vn.f(Q, "oi_inspol.numrec") == CNT(A_, n), None)]
        for fl, t in scalars(vn.ex, "oi_inspol"):
            if fl not in ("nwave", "numrec"):
                out.append(("value:table." + fl, [], vn.f(Q, "oi_inspol." + fl) == vo.f(P, "oi_inspol." + fl), None))
        for nm, xs, g, pat in irelated(vn, vo, c.flt, c.hash, rec(vn, K, Q).b, CNT(A_, k_), rec(vo, K, P).b, k_, nw, W):
            out.append((nm, [k_] + xs, IMP(z3.And(rng(k_, n), A_[k_]), g), pat))
        return out


class CopyKind(Kind):
    """tables copied whole"""
    params = ["inp", "flt", "out"]

    def __init__(self, K):
        Kind.__init__(self, K)
        self.hashname = K + "Hash"
        self.key = dict(array="arrname", corr="corrname", wavelength="insname")[K]

    def pre(self, c, v, D, g, T):
        return []

    def sel(self, c, v, T):
        return tnames(v, c.flt, self.K, T)

    def rel(self, c, vn, vo, Q, P):
        return [unq("value:" + n, g) for n, g in spec_dup.copied(vn, vo, self.K, Q, P)]

    def shape(self, vn, vo, Q):
        out = table_shape(vn, vo, self.K, Q) if KINDS[self.K]["r"] else [
            ("fresh", [], z3.And(Q.b >= vo.next, Q.b < vn.next, Q.i == 0, tag(Q.b) == 0), Q.b)] + [
            (n, [], g, Q.b) for n, g in wf(vn, self.K, Q, own=True)] + [
            ("fresh." + a, [], vn.f(Q, "%s.%s" % (self.s, a)).b >= vo.next, Q.b) for a, ty, ln in KINDS[self.K]["tarrs"]]
        return out


def mk_all(KD, extra=None, into=SPECS, light=False):
    """light: only what the storage of the output looks like, not which tables it holds"""
    K, s = KD.K, KD.s
    name = "filter_all_oi_" + K

    def P(c):
        return DS(c.old, c.inp)

    def in_tab(v, D, t):
        l = D.L(K)
        return z3.And(l.b != 0, rng(t, v.llen(l.b)))

    def hobj(v, c):
        return v.f(c.out, OF + KD.hashname)

    def pre(c):
        v = c.old
        D = P(c)
        T = D.T(K, t_)
        g = in_tab(v, D, t_)
        out = D.wf_lists([K])
        out += [("out", z3.And(obj(v, c.out, "oi_fits"), c.out.b != c.inp.b)), ("out_empty", z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0)),
                ("out_count", v.f(c.out, OF + NUMS[K]) == 0), ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0))]
        out += KD.pre(c, v, D, g, T)
        if KD.hashname:
            out.append(("out_hash", z3.And(hobj(v, c).b != 0, hobj(v, c).b < v.next, hobj(v, c).b != v.f(c.inp, OF + KD.hashname).b)))
            T2 = D.T(K, q_)
            out.append(("distinct_names", FA([t_, q_], IMP(z3.And(g, in_tab(v, D, q_), t_ != q_), v.f(T, s + "." + KD.key) != v.f(T2, s + "." + KD.key)),
                                             (T.b, T2.b))))
        S = SELT[K](c.inp.b)
        out.append(("def_sel", FA([t_], IMP(g, S[t_] == KD.sel(c, v, T)), S[t_])))
        return out

    def rels(vn, vo, c, t):
        D = DS(vo, c.inp)
        S = SELT[K](c.inp.b)
        Pt = D.T(K, t)
        Q = DS(vn, c.out).T(K, CNT(S, t))
        rl = [] if light else KD.rel(c, vn, vo, Q, Pt)
        if KD.hashname and not light:
            h = hobj(vn, c)
            key = vo.f(Pt, s + "." + KD.key)
            rl = rl + [("hash:" + w, [], x, None) for w, x in (
                ("present", sel(vn.map("HHas"), h.b, key)),
                ("table", z3.And(sel(vn.map("HVb"), h.b, key) == Q.b, sel(vn.map("HVi"), h.b, key) == 0)))]
        return S, rl, Pt

    def post(c):
        v, o = c.new, c.old
        D, Q = P(c), DS(v, c.out)
        S, rl, Pt = rels(v, o, c, t_)
        N = CNT(S, D.n(K))
        if light:
            N = v.f(c.out, OF + NUMS[K])
        out = [("count:list", Q.n(K) == N), ("count:num", v.f(c.out, OF + NUMS[K]) == N),
               ("list", z3.Or(z3.And(N == 0, Q.L(K).b == 0), z3.And(Q.L(K).i == 0, Q.L(K).b >= o.next, Q.L(K).b < v.next)))]
        for nm, xs, g, pat in rl:
            out.append(("rel." + nm, quant([t_] + xs, z3.And(rng(t_, D.n(K)), S[t_]), g, None)))
        T = Q.T(K, t_)
        for nm, xs, g, pat in KD.shape(v, o, T):
            out.append(("shape." + nm, quant([t_] + xs, rng(t_, N), g, pat)))
        if extra and not light:
            out += extra.post(c)
        return out

    def tmpl(c, L):
        ex, o = L.ex, c.old
        S = SELT[K](c.inp.b)
        D = P(c)
        if not any(k in L.modenv and L.is_list(k) for k, v in L.s0.env.items()):
            return []
        out = []
        num = lambda v: v.f(c.out, OF + NUMS[K])
        out += fact_cand(L, "count", lambda v: num(v) == DS(v, c.out).n(K))
        out += fact_cand(L, "list", lambda v: z3.Or(z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0),
                                                    z3.And(DS(v, c.out).L(K).i == 0, DS(v, c.out).L(K).b >= o.next, DS(v, c.out).L(K).b < v.next,
                                                           v.llen(DS(v, c.out).L(K).b) > 0)))
        n0 = L.s0.heap["NEXT"]
        out += fact_cand(L, "list.new", lambda v: z3.Or(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).b >= n0))
        for mn, mg in [(n, g) for n, g in L.metas() if n.startswith("pos(")]:
            if not light:
                out.append(Cand("n=sel(%s)" % mn, lambda st, mg=mg: num(V(ex, st)) == CNT(S, mg(st))))
            S_, rl, Pt = rels(V(ex, L.s0), o, c, t_)
            for y in range(len(rl)):
                def f(st, y=y, mg=mg):
                    _, r2, Pt = rels(V(ex, st), o, c, t_)
                    nm, xs, g, pat = r2[y]
                    pats = (S[t_], pat) if pat is not None else S[t_]
                    return quant([t_] + xs, z3.And(rng(t_, mg(st)), S[t_]), g, pats)
                out.append(Cand("rel.%s[<%s]" % (rl[y][0], mn), f))
        sh = KD.shape(V(ex, L.s0), o, D.T(K, t_))
        for y in range(len(sh)):
            def f(st, y=y):
                v = V(ex, st)
                nm, xs, g, pat = KD.shape(v, o, DS(v, c.out).T(K, t_))[y]
                return quant([t_] + xs, rng(t_, num(v)), g, pat)
            out.append(Cand("shape." + sh[y][0], f))
        if extra and not light:
            out += extra.tmpl(c, L)
        return out
    hm = lambda c: [(m, c.out.b) for m in LISTF(K)] + ([(m, hobj(c.old, c).b) for m in ("HHas", "HVb", "HVi")] if KD.hashname else [])
    into[name] = Contract(name, KD.params, pre, post, heapmod=hm, templates=[tmpl],
                           config=dict(own=True, cntwit=True, paths=True, cand_timeout=20000, noframe0=LISTF(K) + ["HHas", "HVb", "HVi"]))


# ------------------------------------------------------------------ wavelength tables
WIDX = z3.Function("wavelength_index", I, STR, I)     # dataset, INSNAME -> index of the accepted wavelength table of that name


class WaveKind(CopyKind):
    def pre(self, c, v, D, g, T):
        n = v.f(T, "oi_wavelength.nwave")
        S = SELW(T.b)
        r = lambda k: rngf(v, c.flt, "wave_range", k)
        x = wave(v, T, j_)
        nm = v.f(T, "oi_wavelength.insname")
        return [("def_channels", FA([t_, j_], IMP(z3.And(g, rng(j_, n)), S[j_] == z3.And(z3.Not(flt(x, r(0))), z3.Not(flt(r(1), x)))),
                                    (T.b, S[j_]))),
                ("def_index", FA([t_], IMP(z3.And(g, accn(v, c.flt, "insname", nm)), WIDX(c.inp.b, nm) == t_), T.b))]

    def sel(self, c, v, T):
        return z3.And(tnames(v, c.flt, self.K, T), CNT(SELW(T.b), v.f(T, "oi_wavelength.nwave")) > 0)

    def rel(self, c, vn, vo, Q, P):
        n = vo.f(P, "oi_wavelength.nwave")
        S = SELW(P.b)
        out = [("count:nwave", [], vn.f(Q, "oi_wavelength.nwave") == CNT(S, n), None)]
        for fl in ("insname", "revision"):
            out.append(("value:" + fl, [], vn.f(Q, "oi_wavelength." + fl) == vo.f(P, "oi_wavelength." + fl), None))
        for a in ("eff_wave", "eff_band"):
            src = vo.h("float", vo.a(P, "oi_wavelength." + a), j_)
            out.append(("value:" + a, [j_], IMP(z3.And(rng(j_, n), S[j_]), vn.h("float", vn.a(Q, "oi_wavelength." + a), CNT(S, j_)) == src), src))
        return out


class UseHash:
    """the returned map: INSNAME -> which channels are accepted"""

    def clauses(self, c, vn, vo, h, lim):
        D = DS(vo, c.inp)
        T = D.T("wavelength", t_)
        nm = vo.f(T, "oi_wavelength.insname")
        n = vo.f(T, "oi_wavelength.nwave")
        S = SELW(T.b)
        g = z3.And(rng(t_, lim), accn(vo, c.flt, "insname", nm))
        u = Ptr(sel(vn.map("HVb"), h.b, nm), sel(vn.map("HVi"), h.b, nm))
        U = NZ(row(vn, "char", u.b))
        x = z3.Const("s", STR)
        w = WIDX(c.inp.b, x)
        nw = vo.f(D.T("wavelength", w), "oi_wavelength.insname")
        has = sel(vn.map("HHas"), h.b, x)
        pos = CNT(S, n) > 0
        return [("known", FA([t_], IMP(g, sel(vn.map("HHas"), h.b, nm)), T.b)),
                ("none", FA([t_], IMP(z3.And(g, z3.Not(pos)), u.b == 0), T.b)),
                ("vector", FA([t_], IMP(z3.And(g, pos), z3.And(u.b >= vo.next, u.b != 0, live(vn, u, n))), T.b)),
                ("channels", FA([t_, j_], IMP(z3.And(g, pos, rng(j_, n)), U[j_] == S[j_]), (T.b, S[j_]))),
                ("count", FA([t_], IMP(z3.And(g, pos), EQC(U, S, n)), T.b)),
                ("only", FA([x], IMP(has, z3.And(rng(w, lim), nw == x, accn(vo, c.flt, "insname", x))), has))]

    def post(self, c):
        return [("use:fresh", z3.And(c.ret.b >= c.old.next, c.ret.b < c.new.next))] + [
            ("use:" + n, g) for n, g in self.clauses(c, c.new, c.old, c.ret, DS(c.old, c.inp).n("wavelength"))]

    def tmpl(self, c, L):
        out = []
        hs = {}
        for nm, b, i in L.writes:
            if nm == "HHas" and L.invariant_term(b):
                hs[b.get_id()] = b
        hs.pop(c.old.f(c.out, OF + "wavelengthHash").b.get_id(), None)
        n = len(self.clauses(c, V(L.ex, L.s0), c.old, Ptr(ZERO, ZERO), ZERO))
        for y in range(n):
            for hi, h in enumerate(hs.values()):
                for mn, mg in [(n, g) for n, g in L.metas() if n.startswith("pos(")]:
                    out.append(Cand("use:%d@%d[<%s]" % (y, hi, mn), lambda st, y=y, h=h, mg=mg: self.clauses(c, V(L.ex, st), c.old, Ptr(h, ZERO), mg(st))[y][1]))
        return out


ALLKINDS = [(DataKind(K), None) for K in REC] + [(InspolKind("inspol"), None), (CopyKind("array"), None), (CopyKind("corr"), None),
                                                (WaveKind("wavelength"), UseHash())]
for kd, x in ALLKINDS:
    mk_all(kd, x)
