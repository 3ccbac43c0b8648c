"""Contracts of the remaining per-table filters: wavelength, inspol, target, header."""
from spec_filter import *
import spec_dup
from lib import PM, patof


def relem(v, p, k):
    """element k of an array argument (pointer to memory, or a field of a structure)"""
    if isinstance(p, Ref):
        lv, i = p.lv, ZERO
        if lv.k == "elem":
            lv, i = lv.a
        return sel(v.ex.load(lv, v.st), z3.simplify(i + k))
    return v.h("float", at(p, ZERO), z3.IntVal(k))


# ------------------------------------------------------------------ wavelength table
def wave_sel(v, rngp, W, j):
    x = wave(v, W, j)
    return z3.And(z3.Not(flt(x, relem(v, rngp, 0))), z3.Not(flt(relem(v, rngp, 1), x)))


SELW = z3.Function("accepted_channels", I, z3.ArraySort(I, B))     # input wavelength table -> channels


def w_pre(c):
    v = c.old
    n = v.f(c.inw, "oi_wavelength.nwave")
    out = wf(v, "wavelength", c.inw)
    S = SELW(c.inw.b)
    if isinstance(c.range, Ptr):
        out.append(("range", live(v, c.range, 8)))
    return out + [("out", z3.And(obj(v, c.outw, "oi_wavelength"), c.outw.b != c.inw.b)), ("use", live(v, c.use, n)),
                  ("use_distinct", z3.And(c.use.b != v.f(c.inw, "oi_wavelength.eff_wave").b, c.use.b != v.f(c.inw, "oi_wavelength.eff_band").b)),
                  ("def", FA([j_], IMP(rng(j_, n), S[j_] == wave_sel(v, c.range, c.inw, j_)), S[j_]))]


def w_post(c):
    v, o = c.new, c.old
    n = o.f(c.inw, "oi_wavelength.nwave")
    S = SELW(c.inw.b)
    N = CNT(S, n)
    u = v.h("char", at(c.use, ZERO), j_)
    out = [("count:nwave", v.f(c.outw, "oi_wavelength.nwave") == N),
           ("select:use", FA([j_], IMP(rng(j_, n), (u != 0) == S[j_]), u)),
           ("select:count", EQC(NZ(row(v, "char", c.use.b)), S, n)),
           ("value:insname", v.f(c.outw, "oi_wavelength.insname") == o.f(c.inw, "oi_wavelength.insname")),
           ("value:revision", v.f(c.outw, "oi_wavelength.revision") == o.f(c.inw, "oi_wavelength.revision"))]
    for a in ("eff_wave", "eff_band"):
        q = v.a(c.outw, "oi_wavelength." + a)
        src = o.h("float", o.a(c.inw, "oi_wavelength." + a), j_)
        out.append(("value:" + a, FA([j_], IMP(z3.And(rng(j_, n), S[j_]), v.h("float", q, CNT(S, j_)) == src), src)))
        out.append(("indep:" + a, z3.Or(z3.And(N == 0, q.b == 0),
                                        z3.And(q.b >= o.next, live(v, v.f(c.outw, "oi_wavelength." + a), N * 4),
                                               own_(v, q, "oi_wavelength." + a, c.outw)))))
        out.append(("present:" + a, IMP(N > 0, q.b != 0)))
    out.append(("indep:distinct", IMP(N > 0, v.f(c.outw, "oi_wavelength.eff_wave").b != v.f(c.outw, "oi_wavelength.eff_band").b)))
    return out


def w_tmpl(c, L):
    o, ex = c.old, L.ex
    S = SELW(c.inw.b)
    out = count_cands(L, c, [("sel", S)])
    for mn, g in L.metas():
        def f(st, g=g):
            u = V(ex, st).h("char", at(c.use, ZERO), j_)
            return FA([j_], IMP(rng(j_, g(st)), (u != 0) == S[j_]), u)
        out.append(Cand("use[<%s]" % mn, f))
        for a in ("eff_wave", "eff_band"):
            def f(st, g=g, a=a):
                v = V(ex, st)
                src = o.h("float", o.a(c.inw, "oi_wavelength." + a), j_)
                return FA([j_], IMP(z3.And(rng(j_, g(st)), S[j_]), v.h("float", v.a(c.outw, "oi_wavelength." + a), CNT(S, j_)) == src), src)
            out.append(Cand("copied_%s[<%s]" % (a, mn), f))
    return out


SPECS["filter_oi_wavelength"] = Contract("filter_oi_wavelength", ["inw", "range", "outw", "use"], w_pre, w_post,
                                         mod=lambda c: [("oi_wavelength", c.outw)], heapmod=lambda c: [("H:char", c.use.b)],
                                         templates=[w_tmpl], config=dict(own=True))


# ------------------------------------------------------------------ inspol table
def hval(v, h, key):
    has = sel(v.map("HHas"), h.b, key)
    return Ptr(z3.If(has, sel(v.map("HVb"), h.b, key), ZERO), z3.If(has, sel(v.map("HVi"), h.b, key), ZERO))


def iuse(v, h, R):
    return hval(v, h, v.f(R, "oi_inspol_record.insname"))


def iU(v, h, R):
    return NZ(row(v, "char", sel(v.map("HVb"), h.b, v.f(R, "oi_inspol_record.insname"))))


def accn(v, f, nm, s):
    """name accepted: no compiled pattern, or the pattern matches"""
    p = v.f(f, FS + nm + "_pttn")
    return z3.Or(p.b == 0, PM(patof(p.b), s))


def icrit(v, f, h, R):
    g = lambda a: v.f(R, "oi_inspol_record." + a)
    tid = v.f(f, FS + "target_id")
    return z3.And(z3.Or(tid < 0, g("target_id") == tid), accn(v, f, "insname", g("insname")),
                  z3.Not(flt(g("mjd_end"), rngf(v, f, "mjd_range", 0))), z3.Not(flt(rngf(v, f, "mjd_range", 1), g("mjd_obs"))),
                  iuse(v, h, R).b != 0)


def usew_ok(v, h, R, nw):
    """the selection registered for the record's INSNAME, if any, has (at least) the table's channels, one of them accepted"""
    q = iuse(v, h, R)
    return z3.Or(q.b == 0, z3.And(live(v, q, nw), CNT(iU(v, h, R), nw) > 0))


def ip_pre(c):
    v = c.old
    K = "inspol"
    n, nw = nrec(v, K, c.inp), v.f(c.inp, "oi_inspol.nwave")
    R = at(rec(v, K, c.inp), k_)
    A_ = ACCA[K](c.inp.b)
    crit = icrit(v, c.flt, c.hash, R)
    s = CNT(iU(v, c.hash, R), nw)
    W = NWSEL(c.inp.b)
    pat = v.f(R, "oi_inspol_record.insname")
    return wf(v, K, c.inp) + [
        ("out", z3.And(obj(v, c.out, "oi_inspol"), c.out.b != c.inp.b)),
        ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0)),
        ("hash", c.hash.b != 0),
        ("selections", FA([k_], IMP(rng(k_, n), usew_ok(v, c.hash, R, nw)), pat)),
        ("def_acc", FA([k_], IMP(rng(k_, n), A_[k_] == z3.And(crit, z3.Or(CNT(A_, k_) == 0, s == W))), A_[k_])),
        ("def_first", FA([k_], IMP(z3.And(rng(k_, n), crit, CNT(A_, k_) == 0), W == s), A_[k_]))]


def irelated(vn, vo, f, h, rq, kq, rp, kp, nin, nout):
    rs = "oi_inspol_record"
    Rq, Rp = Ptr(rq, kq), Ptr(rp, kp)
    U = iU(vo, h, Rp)
    out = []
    for fl, t in scalars(vn.ex, rs):
        out.append(("value:" + fl, [], vn.f(Rq, rs + "." + fl) == exp_scalar(vo, f, "inspol", Rp, fl), vo.f(Rp, rs + "." + fl)))
    for a, ty, ln, cond in KINDS["inspol"]["arrs"]:
        sf = rs + "." + a
        src = vo.h(ty, vo.a(Rp, sf), j_)
        q = vn.f(Rq, sf)
        out.append(("value:" + a, [j_], IMP(z3.And(rng(j_, nin), U[j_]), vn.h(ty, vn.a(Rq, sf), CNT(U, j_)) == src), src))
        out.append(("indep:" + a, [], z3.And(q.b >= vo.next, live(vn, q, nout * SZ[ty]), own_(vn, q, sf, Rq)), q.b))
    return out


def ip_post(c):
    v, o = c.new, c.old
    K = "inspol"
    n, nw = nrec(o, K, c.inp), o.f(c.inp, "oi_inspol.nwave")
    A_, W = ACCA[K](c.inp.b), NWSEL(c.inp.b)
    N = CNT(A_, n)
    out = [("count:numrec", v.f(c.out, "oi_inspol.numrec") == N),
           ("count:nwave", IMP(N > 0, v.f(c.out, "oi_inspol.nwave") == W))]
    for fl, t in scalars(c.ex, "oi_inspol"):
        if fl not in ("nwave", "numrec"):
            out.append(("value:table." + fl, v.f(c.out, "oi_inspol." + fl) == o.f(c.inp, "oi_inspol." + fl)))
    rq, rp = rec(v, K, c.out), rec(o, K, c.inp)
    for nm, xs, g, pat in irelated(v, o, c.flt, c.hash, rq.b, CNT(A_, k_), rp.b, k_, nw, W):
        out.append((nm, FA([k_] + xs, IMP(z3.And(rng(k_, n), A_[k_]), g), pat)))
    out.append(("indep:record", z3.Or(z3.And(N == 0, rq.b == 0), rq.b >= o.next)))
    for nm, g in wf(v, K, c.out, own=True):
        out.append(("wf:" + nm, IMP(N > 0, g)))
    for a, ty, ln, cond in KINDS[K]["arrs"]:
        q = v.f(at(rq, k_), "oi_inspol_record." + a)
        out.append(("indep:all." + a, FA([k_], IMP(rng(k_, N), q.b >= o.next), q.b)))
    return out


def ip_tmpl(c, L):
    ex, o = L.ex, c.old
    K = "inspol"
    rs = "oi_inspol_record"
    A_, W = ACCA[K](c.inp.b), NWSEL(c.inp.b)
    nw = o.f(c.inp, "oi_inspol.nwave")
    rp = rec(o, K, c.inp)
    out = count_cands(L, c, [("acc", A_)])
    keys = getters(L, c)
    # x == channels of record r selected among the first y
    for (rn, rg) in keys:
        for (n1, g1), (n2, g2) in itertools.permutations([(n, g) for n, g in L.metas()], 2):
            out.append(Cand("%s=sel_%s(%s)" % (n1, rn, n2),
                            lambda st, g1=g1, g2=g2, rg=rg: g1(st) == CNT(iU(o, c.hash, Ptr(rp.b, rg(st))), g2(st))))
    nwo = lambda st: V(ex, st).f(c.out, "oi_inspol.nwave")
    for cn, cg in keys:
        out.append(Cand("nwave_set(%s)" % cn, lambda st, cg=cg: IMP(cg(st) > 0, nwo(st) == W)))
        out.append(Cand("nwave_pos(%s)" % cn, lambda st, cg=cg: IMP(cg(st) > 0, W > 0)))
    for base in record_bases(L, KINDS[K]):
        names = [y[0] for y in irelated(V(ex, L.s0), o, c.flt, c.hash, base, CNT(A_, k_), rp.b, k_, nw, W)]
        for nm in names:
            for mn, mg in [(n, g) for n, g, m in loop_vars(L, c) if m]:
                def f(st, nm=nm, mg=mg, base=base):
                    v = V(ex, st)
                    x = [y for y in irelated(v, o, c.flt, c.hash, base, CNT(A_, k_), rp.b, k_, nw, W) if y[0] == nm][0]
                    return FA([k_] + x[1], IMP(z3.And(rng(k_, mg(st)), A_[k_]), x[2]), x[3])
                out.append(Cand("%s[<%s]" % (nm, mn), f))
        for a, ty, ln, cond in KINDS[K]["arrs"]:
            sf = rs + "." + a

            def fn(v, k, sf=sf, base=base, ty=ty):
                q = v.f(Ptr(base, k), sf)
                return z3.And(q.b >= o.next, live(v, q, W * SZ[ty]), own_(v, q, sf, Ptr(base, k))), q.b
            out += range_cands(L, "live:" + a, fn)
    # the record being filled: found through the entry value of what this loop writes
    for a, ty, ln, cond in KINDS[K]["arrs"]:
        bases = {}
        for nm, b, i in L.writes:
            if nm == "H:" + ty and L.invariant_term(b) and not b.decl().name().startswith("fresh_base"):
                bases[b.get_id()] = b
        for b in bases.values():
            for rn, rg in keys:
                for mn, mg in [(n, g) for n, g, m in loop_vars(L, c) if m]:
                    if rn == mn:
                        continue

                    def f(st, a=a, ty=ty, b=b, rg=rg, mg=mg):
                        v = V(ex, st)
                        Rp = Ptr(rp.b, rg(st))
                        U = iU(o, c.hash, Rp)
                        src = o.h(ty, o.a(Rp, rs + "." + a), j_)
                        return FA([j_], IMP(z3.And(rng(j_, mg(st)), U[j_]), v.h(ty, Ptr(b, ZERO), CNT(U, j_)) == src), src)
                    out.append(Cand("copied_%s_%s[<%s]@%d" % (a, rn, mn, list(bases.values()).index(b)), f))
    return out


SPECS["filter_oi_inspol"] = Contract("filter_oi_inspol", ["inp", "flt", "hash", "out"], ip_pre, ip_post,
                                     mod=lambda c: [("oi_inspol", c.out)], templates=[ip_tmpl], config=dict(own=True))


# ------------------------------------------------------------------ targets and header
def tg_pre(c):
    v = c.old
    n, r = v.f(c.inp, "oi_target.ntarget"), v.f(c.inp, "oi_target.targ")
    tid = lambda k: v.f(at(r, k), "target.target_id")
    return [("in", obj(v, c.inp, "oi_target")), ("out", z3.And(obj(v, c.out, "oi_target"), c.out.b != c.inp.b)),
            ("filter", z3.And(obj(v, c.flt, "oi_filter_spec"), tag(c.flt.b) == 0)),
            ("targets", z3.And(n >= 0, live(v, r, n * ssize(v.ex, "target")))),
            ("some", z3.Or(n > 0, v.f(c.flt, FS + "target_id") >= 0)),
            ("unique", FA([k_, j_], IMP(z3.And(rng(k_, n), rng(j_, n), tid(k_) == tid(j_)), k_ == j_), tid(k_), tid(j_)))]


def tg_post(c):
    v, o = c.new, c.old
    n, r = o.f(c.inp, "oi_target.ntarget"), o.f(c.inp, "oi_target.targ")
    sid = o.f(c.flt, FS + "target_id")
    one = sid >= 0
    m, q = v.f(c.out, "oi_target.ntarget"), v.f(c.out, "oi_target.targ")
    tid = o.f(at(r, k_), "target.target_id")
    out = [("value:revision", v.f(c.out, "oi_target.revision") == o.f(c.inp, "oi_target.revision")),
           ("value:usecategory", v.f(c.out, "oi_target.usecategory") == o.f(c.inp, "oi_target.usecategory")),
           ("count:all", IMP(z3.Not(one), m == n)), ("count:one", IMP(one, z3.Or(m == 0, m == 1))),
           ("count:absent", IMP(z3.And(one, m == 0), FA([k_], IMP(rng(k_, n), tid != sid), tid))),
           ("count:present", IMP(z3.And(one, m > 0), z3.Exists([k_], z3.And(rng(k_, n), tid == sid)))),
           ("indep", IMP(m > 0, z3.And(q.b >= o.next, live(v, q, m * ssize(v.ex, "target")), own_(v, q, "oi_target.targ", c.out))))]
    for fl, t in c.ex.struct_fields("target"):
        sf = "target." + fl
        src = o.f(at(r, k_), sf)
        out.append(("value:" + fl, IMP(z3.Not(one), FA([k_], IMP(rng(k_, n), v.f(at(q, k_), sf) == src), v.f(at(q, k_), sf)))))
        x = v.f(at(q, ZERO), sf)
        e = z3.IntVal(1) if fl == "target_id" else src
        out.append(("value:one." + fl, IMP(one, FA([k_], IMP(z3.And(rng(k_, n), tid == sid), x == e), tid))))
    return out


def tg_tmpl(c, L):
    o, ex = c.old, L.ex
    n, r = o.f(c.inp, "oi_target.ntarget"), o.f(c.inp, "oi_target.targ")
    sid = o.f(c.flt, FS + "target_id")
    tid = o.f(at(r, k_), "target.target_id")
    out = []
    m = lambda v: v.f(c.out, "oi_target.ntarget")
    q = lambda v: v.f(c.out, "oi_target.targ")
    out += fact_cand(L, "count01", lambda v: z3.Or(m(v) == 0, m(v) == 1))
    out += fact_cand(L, "own", lambda v: IMP(m(v) > 0, z3.And(q(v).b >= o.next, live(v, q(v), ssize(ex, "target")),
                                                             own_(v, q(v), "oi_target.targ", c.out))))
    for mn, g in L.metas():
        def f(st, g=g):
            v = V(ex, st)
            return IMP(m(v) == 0, FA([k_], IMP(rng(k_, g(st)), tid != sid), tid))
        out.append(Cand("absent[<%s]" % mn, f))

        def f(st, g=g):
            v = V(ex, st)
            return IMP(m(v) > 0, z3.Exists([k_], z3.And(rng(k_, g(st)), tid == sid)))
        out.append(Cand("present[<%s]" % mn, f))
        for fl, t in ex.struct_fields("target"):
            def f(st, g=g, fl=fl):
                v = V(ex, st)
                e = z3.IntVal(1) if fl == "target_id" else o.f(at(r, k_), "target." + fl)
                return FA([k_], IMP(z3.And(rng(k_, g(st)), tid == sid), v.f(at(q(v), ZERO), "target." + fl) == e), tid)
            out.append(Cand("one.%s[<%s]" % (fl, mn), f))
    return out


SPECS["filter_oi_target"] = Contract("filter_oi_target", ["inp", "flt", "out"], tg_pre, tg_post, mod=lambda c: [("oi_target", c.out)],
                                     templates=[tg_tmpl], argkinds=dict(inp="emb", out="emb"), config=dict(own=True))


def hd_post(c):
    return [("value:" + fl, c.new.f(c.out, "oi_header." + fl) == c.old.f(c.inp, "oi_header." + fl)) for fl, t in c.ex.struct_fields("oi_header")]


SPECS["filter_oi_header"] = Contract("filter_oi_header", ["inp", "flt", "out"],
                                     lambda c: [("in", obj(c.old, c.inp, "oi_header")), ("out", z3.And(obj(c.old, c.out, "oi_header"), c.out.b != c.inp.b))],
                                     hd_post, mod=lambda c: [("oi_header", c.out)], argkinds=dict(inp="emb", out="emb"))
