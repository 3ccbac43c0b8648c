"""Contracts of the filter (oifilter.c)."""
from dataset import *
import itertools

SPECS = {}
REC = ["vis", "vis2", "t3", "flux"]
OKC = {K: z3.Function("data_in_range_" + K, I, I, I, B) for K in REC}      # (record base, record index, channel)
ACCA = {K: z3.Function("accepted_records_" + K, I, z3.ArraySort(I, B)) for K in REC + ["inspol"]}   # input table -> rows
NWSEL = z3.Function("selected_channels_inspol", I, I)
NAN = fop("fdiv_double")(flit(0.0), flit(0.0))
q_ = z3.Int("q")


def recat(v, p, s):
    """p points at an element of a live array of s"""
    return z3.And(p.b > 0, tag(p.b) == 0, p.b < v.next, p.i >= 0, (p.i + 1) * ssize(v.ex, s) <= v.len(p.b))


def row(v, ty, b):
    return sel(v.map("H:" + ty), b)


def use(c):
    return NZ(row(c.old, "char", c.use.b))


def okc_formula(v, f, K, R, W, j):
    """UV radius (where the wavelength is known) and SNR inside the filter's ranges"""
    g = [snr_ok(v, f, K, R, j)]
    if K != "flux":
        g.append(z3.Or(W.b == 0, uvrad_ok(v, f, K, R, wave(v, W, j))))
    return z3.And(*g)


def okc_def(v, f, K, R, W, nw, j=j_):
    o = OKC[K](R.b, R.i, j)
    return FA([j], IMP(rng(j, nw), o == okc_formula(v, f, K, R, W, j)), o)


def wave_ok(v, W, nw):
    ew = v.f(W, "oi_wavelength.eff_wave")
    return z3.Or(z3.And(W.b == 0, W.i == 0), z3.And(obj(v, W, "oi_wavelength"), tag(W.b) == 0, live(v, ew, nw * 4),
                                                    v.f(W, "oi_wavelength.nwave") >= nw))


def flag_in(v, K, R, j):
    return v.h("char", v.a(R, KINDS[K]["r"] + ".flag"), j)


def any_ok(v, K, R, U, nw, f=None):
    j = z3.Int("u")
    return z3.Exists([j], z3.And(rng(j, nw), U[j], flag_in(v, K, R, j) == 0, OKC[K](R.b, R.i, j)))


def arrays_live(v, K, R, nw, opts):
    """per-channel arrays of one record"""
    out = []
    for a, ty, ln, cond in KINDS[K]["arrs"]:
        q = v.f(R, "%s.%s" % (KINDS[K]["r"], a))
        n = MUL(nw, nw) if ln == "nwave2" else nw
        out.append((a, IMP(opts.get(cond, TRUE), live(v, q, n * SZ[ty]))))
    return out


def expected(vo, f, K, R, a, ty, j):
    """what the filter must put in the output for channel j of array a"""
    x = vo.h(ty, vo.a(R, "%s.%s" % (KINDS[K]["r"], a)), j)
    if a == "flag" and K != "flux":
        return z3.If(z3.And(x == 0, z3.Not(OKC[K](R.b, R.i, j))), z3.IntVal(1), x)
    if K == "t3" and a == "t3amp":
        return z3.If(vo.f(f, FS + "accept_t3amp") != 0, x, NAN)
    if K == "t3" and a == "t3phi":
        return z3.If(vo.f(f, FS + "accept_t3phi") != 0, x, NAN)
    if K == "flux" and a == "fluxdata":
        return z3.If(OKC[K](R.b, R.i, j), x, NAN)
    return x


def exp_scalar(vo, f, K, R, fld):
    x = vo.f(R, "%s.%s" % (KINDS[K]["r"], fld))
    if fld == "target_id":
        return z3.If(vo.f(f, FS + "target_id") >= 0, z3.IntVal(1), x)
    return x


def opts_of(c, K):
    if K != "vis":
        return {}
    return dict(usevisrefmap=c.urm != 0, usecomplex=c.ucx != 0)


def int_keys(L, c):
    """integer locals in scope that this or an enclosing loop steps"""
    mem = c.defs.setdefault("intkeys", set())
    for k in L.modenv:
        v0 = L.s0.env.get(k)
        if isinstance(v0, z3.ExprRef) and v0.sort() == I:
            mem.add(k)
    return [k for k in sorted(mem, key=str) if k in L.s0.env and isinstance(L.s0.env[k], z3.ExprRef)]


def getters(L, c, mod_only=False):
    ks = [k for k in int_keys(L, c) if not mod_only or k in L.modenv]
    return [(str(k[-1]), (lambda st, k=k: st.env[k])) for k in ks]


def loop_vars(L, c):
    """integer locals that the condition of this or of an enclosing loop mentions and that the loops step"""
    mem = c.defs.setdefault("loopvars", set())
    used = cond_vars(L.cond)
    for k in L.modenv:
        v0 = L.s0.env.get(k)
        if isinstance(v0, z3.ExprRef) and v0.sort() == I and len(k) > 1 and k[1] in used:
            mem.add(k)
    return [(str(k[-1]), (lambda st, k=k: st.env[k]), k in L.modenv) for k in sorted(mem, key=str)
            if isinstance(L.s0.env.get(k), z3.ExprRef)]


def cond_vars(n):
    out = set()
    if n:
        if n.get("kind") == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
        for x in n.get("inner", ()):
            if x:
                out |= cond_vars(x)
    return out


def count_cands(L, c, arrs):
    """x == x_entry + (selected among the first y) for integers the loop steps"""
    out = []
    ms = [(n, g) for n, g in L.metas()]
    for (n1, g1), (n2, g2) in itertools.permutations(ms, 2):
        for an, a in arrs:
            out.append(Cand("%s=count_%s(%s)" % (n1, an, n2), lambda st, g1=g1, g2=g2, a=a: g1(st) == CNT(a, g2(st))))
    return out


# ------------------------------------------------------------------ one record
def mk_rec(K):
    d = KINDS[K]
    rs = d["r"]
    name = "filter_oi_%s_record" % K
    params = ["inr", "flt", "wave", "use", "nin", "nout"]
    if K == "vis":
        params += ["urm", "ucx"]
    if K == "flux":
        params.remove("wave")
    params.append("out")

    def W(c):
        return c.args["wave"] if K != "flux" else NULL

    def pre(c):
        v = c.old
        out = [("in", recat(v, c.inr, rs)), ("out", recat(v, c.out, rs)), ("distinct", c.out.b != c.inr.b),
               ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0)),
               ("use", z3.And(live(v, c.use, c.nin))),
               ("nout", z3.And(c.nin > 0, c.nout > 0, c.nout == CNT(use(c), c.nin)))]
        out += [("in." + n, g) for n, g in arrays_live(v, K, c.inr, c.nin, opts_of(c, K))]
        if K != "flux":
            out.append(("wave", wave_ok(v, W(c), c.nin)))
        out.append(("def", okc_def(v, c.flt, K, c.inr, W(c), c.nin)))
        if K != "flux":
            out.append(("some", z3.Or(v.f(c.flt, FS + "accept_flagged") != 0, any_ok(v, K, c.inr, use(c), c.nin))))
        return out

    def post(c):
        v, o = c.new, c.old
        U = use(c)
        opts = opts_of(c, K)
        out = []
        for fl, t in scalars(c.ex, rs):
            out.append(("value:" + fl, v.f(c.out, rs + "." + fl) == exp_scalar(o, c.flt, K, c.inr, fl)))
        for a, ty, ln, cond in d["arrs"]:
            q = v.f(c.out, "%s.%s" % (rs, a))
            on = opts.get(cond, TRUE)
            if ln == "nwave2":
                src = o.h(ty, o.a(c.inr, "%s.%s" % (rs, a)), q_ + MUL(j_, c.nin))
                x = v.h(ty, at(q, ZERO), CNT(U, q_) + MUL(CNT(U, j_), c.nout))
                g = IMP(z3.And(on, rng(j_, c.nin), rng(q_, c.nin), U[j_], U[q_]), x == src)
                out.append(("value:" + a, FA([j_, q_], g, src)))
                n = MUL(c.nout, c.nout)
            else:
                e = expected(o, c.flt, K, c.inr, a, ty, j_)
                src = o.h(ty, o.a(c.inr, "%s.%s" % (rs, a)), j_)
                x = v.h(ty, at(q, ZERO), CNT(U, j_))
                out.append(("value:" + a, FA([j_], IMP(z3.And(on, rng(j_, c.nin), U[j_]), x == e), src)))
                n = c.nout
            out.append(("indep:" + a, IMP(on, z3.And(q.b >= o.next, live(v, q, n * SZ[ty]), own_(v, q, "%s.%s" % (rs, a), c.out)))))
            if cond:
                out.append(("absent:" + a, IMP(z3.Not(on), q.b == 0)))
        for fl, t in c.ex.struct_fields(rs):
            sf = rs + "." + fl
            a, b = v.f(at(c.out, k_), sf), o.f(at(c.out, k_), sf)
            if isinstance(a, Ptr):
                e, p = z3.And(a.b == b.b, a.i == b.i), a.b
            else:
                e, p = a == b, a
            out.append(("others:" + fl, FA([k_], IMP(k_ != c.out.i, e), p)))
        return out

    def tmpl(c, L):
        o = c.old
        U = use(c)
        opts = opts_of(c, K)
        ex = L.ex
        out = count_cands(L, c, [("used", U)])
        lv = loop_vars(L, c)
        gs = [(n, g) for n, g, m in lv]
        mods = [(n, g) for n, g, m in lv if m]
        allg = getters(L, c)
        for a, ty, ln, cond in d["arrs"]:
            on = opts.get(cond, TRUE)
            sf = "%s.%s" % (rs, a)
            for gn, g in gs:
                def f(st, g=g, a=a, ty=ty, ln=ln, on=on, sf=sf):
                    v = V(ex, st)
                    q = v.a(c.out, sf)
                    if ln == "nwave2":
                        src = o.h(ty, o.a(c.inr, sf), q_ + MUL(j_, c.nin))
                        x = v.h(ty, q, CNT(U, q_) + MUL(CNT(U, j_), c.nout))
                        return FA([j_, q_], IMP(z3.And(on, rng(j_, g(st)), rng(q_, c.nin), U[j_], U[q_]), x == src), src)
                    src = o.h(ty, o.a(c.inr, sf), j_)
                    return FA([j_], IMP(z3.And(on, rng(j_, g(st)), U[j_]),
                                        v.h(ty, q, CNT(U, j_)) == expected(o, c.flt, K, c.inr, a, ty, j_)), src)
                out.append(Cand("copied_%s[<%s]" % (a, gn), f))
            if ln == "nwave2":
                for (gj, fj), (gk, fk), (gl, fl) in itertools.product(gs, allg, mods):
                    if len({gj, gk, gl}) < 3:
                        continue

                    def f2(st, fj=fj, fk=fk, fl=fl, ty=ty, sf=sf, on=on):
                        v = V(ex, st)
                        src = o.h(ty, o.a(c.inr, sf), q_ + MUL(fj(st), c.nin))
                        x = v.h(ty, v.a(c.out, sf), CNT(U, q_) + MUL(fk(st), c.nout))
                        return FA([q_], IMP(z3.And(on, rng(q_, fl(st)), U[q_]), x == src), src)
                    out.append(Cand("row_%s(%s,%s)[<%s]" % (a, gj, gk, gl), f2))
        if K != "flux":
            bools = [k for k, v in sorted(L.s0.env.items(), key=str) if k in L.modenv and isinstance(v, z3.ExprRef) and v.sort() in (I, B)]
            for k in bools:
                for gn, g in mods:
                    def f3(st, k=k, g=g):
                        x = ex.as_bool(st.env[k])
                        fl = flag_in(o, K, c.inr, j_)
                        return IMP(z3.Not(x), FA([j_], IMP(rng(j_, g(st)), z3.Not(z3.And(U[j_], fl == 0, OKC[K](c.inr.b, c.inr.i, j_)))), fl))
                    out.append(Cand("%s_or_none_ok[<%s]" % (k[-1], gn), f3))
        return out

    SPECS[name] = Contract(name, params, pre, post, mod=lambda c: [(rs, c.out)], templates=[tmpl], helper=True,
                           argkinds=dict(inr="ptri", out="ptri"), config=dict(own=True))

    if K == "flux":
        return
    aname = "any_%s_chan_ok" % K

    def apre(c):
        v = c.old
        return ([("in", recat(v, c.inr, rs)), ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0)),
                 ("use", live(v, c.use, c.nin)), ("n", c.nin > 0), ("wave", wave_ok(v, c.wave, c.nin))] +
                [("in." + n, g) for n, g in arrays_live(v, K, c.inr, c.nin, dict(usevisrefmap=FALSE, usecomplex=FALSE))] +
                [("def", okc_def(v, c.flt, K, c.inr, c.wave, c.nin))])

    def apost(c):
        r = c.ex.as_bool(c.ret)
        fl = flag_in(c.old, K, c.inr, j_)
        none = FA([j_], IMP(rng(j_, c.nin), z3.Not(z3.And(use(c)[j_], fl == 0, OKC[K](c.inr.b, c.inr.i, j_)))), fl)
        return [("true_means_some", IMP(r, any_ok(c.old, K, c.inr, use(c), c.nin))), ("false_means_none", IMP(z3.Not(r), none))]

    def atmpl(c, L):
        U = use(c)

        def fn(v, k):
            fl = flag_in(c.old, K, c.inr, k)
            return z3.Not(z3.And(U[k], fl == 0, OKC[K](c.inr.b, c.inr.i, k))), fl
        return range_cands(L, "none_ok", fn)
    SPECS[aname] = Contract(aname, ["inr", "flt", "wave", "use", "nin"], apre, apost, templates=[atmpl], helper=True,
                            argkinds=dict(inr="ptri"))


for K in REC:
    mk_rec(K)


# ------------------------------------------------------------------ one table
def acc_formula(v, f, K, R, U, nw):
    g = accept_record(v, f, K, R)
    if K == "flux":
        return g
    return z3.And(g, z3.Or(v.f(f, FS + "accept_flagged") != 0, any_ok(v, K, R, U, nw)))


def related(vn, vo, f, K, rq, kq, rp, kp, U, nin, nout, opts):
    """record kq of block rq (in vn) is the filtered record kp of block rp (in vo): [(name, extra bound vars, formula, pattern)]"""
    d = KINDS[K]
    rs = d["r"]
    Rq, Rp = Ptr(rq, kq), Ptr(rp, kp)
    out = []
    for fl, t in scalars(vn.ex, rs):
        e = exp_scalar(vo, f, K, Rp, fl)
        out.append(("value:" + fl, [], vn.f(Rq, rs + "." + fl) == e, vo.f(Rp, rs + "." + fl)))
    for a, ty, ln, cond in d["arrs"]:
        sf = "%s.%s" % (rs, a)
        on = opts.get(cond, TRUE)
        q = vn.f(Rq, sf)
        if ln == "nwave2":
            src = vo.h(ty, vo.a(Rp, sf), q_ + MUL(j_, nin))
            x = vn.h(ty, vn.a(Rq, sf), CNT(U, q_) + MUL(CNT(U, j_), nout))
            out.append(("value:" + a, [j_, q_], IMP(z3.And(on, rng(j_, nin), rng(q_, nin), U[j_], U[q_]), x == src), src))
            n = MUL(nout, nout)
        else:
            src = vo.h(ty, vo.a(Rp, sf), j_)
            x = vn.h(ty, vn.a(Rq, sf), CNT(U, j_))
            out.append(("value:" + a, [j_], IMP(z3.And(on, rng(j_, nin), U[j_]), x == expected(vo, f, K, Rp, a, ty, j_)), src))
            n = nout
        out.append(("indep:" + a, [], IMP(on, z3.And(q.b >= vo.next, live(vn, q, n * SZ[ty]), own_(vn, q, sf, Rq))), q.b))
        if cond:
            out.append(("absent:" + a, [], IMP(z3.Not(on), q.b == 0), q.b))
    return out


def topts(v, K, T):
    return {} if K != "vis" else {n: v.f(T, "oi_vis." + n) != 0 for n in ("usevisrefmap", "usecomplex")}


def mk_tab(K):
    d = KINDS[K]
    s, rs = d["s"], d["r"]
    name = "filter_oi_" + K
    params = ["inp", "flt", "wave", "use", "out"]
    if K == "flux":
        params.remove("wave")

    def W(c):
        return c.args["wave"] if K != "flux" else NULL

    def nw(c):
        return c.old.f(c.inp, s + ".nwave")

    def acc(c):
        return ACCA[K](c.inp.b)

    def pre(c):
        v = c.old
        U = use(c)
        R = at(rec(v, K, c.inp), k_)
        n = nrec(v, K, c.inp)
        out = wf(v, K, c.inp)
        out += [("out", z3.And(obj(v, c.out, s), c.out.b != c.inp.b)),
                ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0)),
                ("use", live(v, c.use, nw(c))), ("used", CNT(U, nw(c)) > 0)]
        if K != "flux":
            out.append(("wave", wave_ok(v, W(c), nw(c))))
        o = OKC[K](R.b, k_, j_)
        out.append(("def_okc", FA([k_, j_], IMP(z3.And(rng(k_, n), rng(j_, nw(c))),
                                                o == okc_formula(v, c.flt, K, R, W(c), j_)), o)))
        out.append(("def_acc", FA([k_], IMP(rng(k_, n), acc(c)[k_] == acc_formula(v, c.flt, K, R, U, nw(c))), acc(c)[k_])))
        return out

    def post(c):
        v, o = c.new, c.old
        U, A_ = use(c), acc(c)
        n = nrec(o, K, c.inp)
        N, M = CNT(A_, n), CNT(U, nw(c))
        out = [("count:nwave", v.f(c.out, s + ".nwave") == M), ("count:numrec", v.f(c.out, s + ".numrec") == N)]
        for fl, t in scalars(c.ex, s):
            if fl not in ("nwave", "numrec"):
                out.append(("value:table." + fl, v.f(c.out, s + "." + fl) == o.f(c.inp, s + "." + fl)))
        rq, rp = rec(v, K, c.out), rec(o, K, c.inp)
        for nm, xs, g, pat in related(v, o, c.flt, K, rq.b, CNT(A_, k_), rp.b, k_, U, nw(c), M, topts(o, K, c.inp)):
            out.append((nm, FA([k_] + xs, IMP(z3.And(rng(k_, n), A_[k_]), g), pat)))
        out.append(("indep:record", z3.Or(rq.b == 0, rq.b >= o.next)))
        # the result is a well-formed table that owns its storage
        for nm, g in wf(v, K, c.out, own=True):
            out.append(("wf:" + nm, IMP(N > 0, g)))
        for a, ty, ln, cond in d["arrs"]:
            q = v.f(at(rq, k_), "%s.%s" % (rs, a))
            out.append(("indep:all." + a, FA([k_], IMP(AND(rng(k_, N), acond(v, K, c.out, cond)), q.b >= o.next), q.b)))
        return out

    def tmpl(c, L):
        ex = L.ex
        o = c.old
        U, A_ = use(c), acc(c)
        out = count_cands(L, c, [("used", U), ("acc", A_)])
        rp = rec(o, K, c.inp)
        M = CNT(U, nw(c))
        n0 = c.ex.next0
        for base in record_bases(L, d):
            for nm, xs, g, pat in related(V(ex, L.s0), o, c.flt, K, base, CNT(A_, k_), rp.b, k_, U, nw(c), M, topts(o, K, c.inp)):
                for mn, mg in [(n, g) for n, g, m in loop_vars(L, c) if m]:
                    def f(st, nm=nm, mg=mg, base=base):
                        v = V(ex, st)
                        x = [y for y in related(v, o, c.flt, K, base, CNT(A_, k_), rp.b, k_, U, nw(c), M, topts(o, K, c.inp)) if y[0] == nm][0]
                        return FA([k_] + x[1], IMP(z3.And(rng(k_, mg(st)), A_[k_]), x[2]), x[3])
                    out.append(Cand("%s[<%s]" % (nm, mn), f))
            for a, ty, ln, cond in d["arrs"]:
                sf = "%s.%s" % (rs, a)
                n = MUL(M, M) if ln == "nwave2" else M

                def fn(v, k, sf=sf, base=base, ty=ty, n=n, cond=cond):
                    q = v.f(Ptr(base, k), sf)
                    return IMP(acond(o, K, c.inp, cond),
                               z3.And(q.b >= o.next, live(v, q, n * SZ[ty]), own_(v, q, sf, Ptr(base, k)))), q.b
                out += range_cands(L, "live:" + a, fn)
        return out
    SPECS[name] = Contract(name, params, pre, post, mod=lambda c: [(s, c.out)], templates=[tmpl], config=dict(own=True, cand_timeout=12000))


def record_bases(L, d):
    bs = {}
    for nm, b, i in L.writes:
        if nm.startswith("F:%s." % d["r"]) and L.invariant_term(b) and not b.decl().name().startswith("fresh_base"):
            bs[b.get_id()] = b
    return list(bs.values())


for K in REC:
    mk_tab(K)
