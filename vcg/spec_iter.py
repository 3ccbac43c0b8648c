"""Contracts of the data-point iterators (oiiter.c)."""
from tables import *
from lib import PM
from accept import *

SPECS = {}
IT = "_oi_iter"
FLT = "_oi_iter.filter"


def lex_lt(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.Or(a[1] < b[1], z3.And(a[1] == b[1], a[2] < b[2]))))


def lex_le(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.Or(a[1] < b[1], z3.And(a[1] == b[1], a[2] <= b[2]))))


class Data:
    """the dataset an iterator runs over, as it was on entry"""

    def __init__(self, c, K, D):
        self.v, self.K, self.D = c.old, K, D
        self.L = self.v.f(D, "oi_fits." + LISTS[K])
        self.n = self.v.llen(self.L.b)
        self.s = KINDS[K]["s"]

    def T(self, t):
        return self.v.ld(self.L.b, t)

    def numrec(self, t):
        return self.v.f(self.T(t), self.s + ".numrec")

    def nwave(self, t):
        return self.v.f(self.T(t), self.s + ".nwave")

    def W(self, t):
        return lookup(self.v, self.D, "wavelengthHash", self.v.f(self.T(t), self.s + ".insname"))

    def rec(self, t, k):
        return at(self.v.f(self.T(t), self.s + ".record"), k)

    def inside(self, t, k, j):
        return z3.And(0 <= t, t < self.n, 0 <= k, k < self.numrec(t), 0 <= j, j < self.nwave(t))

    def wf(self):
        """every table non-empty, well formed, its wavelength table present with at least as many channels"""
        v, K, s = self.v, self.K, self.s
        d = KINDS[K]
        T = self.T(t_)
        g = rng(t_, self.n)
        out = [("list", z3.And(self.L.i == 0, z3.Or(self.L.b == 0, z3.And(self.n > 0, self.L.b < v.next)))),
               ("tables", FA([t_], IMP(z3.And(self.L.b != 0, g), z3.And(obj(v, T, s), tag(T.b) == 0)), T.b))]
        nr, nw, r = self.numrec(t_), self.nwave(t_), v.f(T, s + ".record")
        out.append(("sizes", FA([t_], IMP(g, z3.And(nr > 0, nw > 0, live(v, r, nr * ssize(v.ex, d["r"])))), T.b)))
        for a, ty, ln, cond in d["arrs"]:
            if cond is None:
                q = v.f(at(r, k_), "%s.%s" % (d["r"], a))
                out.append((a, FA([t_, k_], IMP(z3.And(g, rng(k_, nr)), live(v, q, nw * SZ[ty])), q.b)))
        W = self.W(t_)
        ew = v.f(W, "oi_wavelength.eff_wave")
        out.append(("wave", FA([t_], IMP(g, z3.And(obj(v, W, "oi_wavelength"), tag(W.b) == 0,
                                                   live(v, ew, nw * 4), v.f(W, "oi_wavelength.nwave") >= nw)), T.b)))
        return out


def mk(K):
    name = "oi_%s_iter_next" % K
    ACC = z3.Function("accepted_" + K, I, I, I, B)

    def cur(v, it):
        return (v.f(it, IT + ".link"), v.f(it, IT + ".irec"), v.f(it, IT + ".iwave"))

    def state_ok(v, it, d):
        """the iterator's representation invariant"""
        lk, r, w = cur(v, it)
        return [("at_end_of_nothing", IMP(lk.b == 0, d.L.b == 0)),
                ("cursor", z3.Or(z3.And(lk.b == 0, lk.i == 0), z3.And(lk.b == d.L.b, 0 <= lk.i, lk.i < d.n))),
                ("rec", IMP(lk.b != 0, z3.And(0 <= r, r < d.numrec(lk.i)))),
                ("chan", IMP(lk.b != 0, z3.And(-1 <= w, w < d.nwave(lk.i)))),
                ("wave", IMP(lk.b != 0, z3.And(v.f(it, IT + ".pWave").b == d.W(lk.i).b, v.f(it, IT + ".pWave").i == d.W(lk.i).i))),
                ("extver", v.f(it, IT + ".extver") == lk.i + 1)]

    def data(c):
        return Data(c, K, c.old.f(c.it, IT + ".pData"))

    def flt(c):
        return Ptr(emb(FLT, c.it.b, c.it.i))

    def pre(c):
        v = c.old
        d = data(c)
        f = flt(c)
        out = [("iter", z3.And(obj(v, c.it, IT), obj(v, d.D, "oi_fits"), tag(d.D.b) == 0))]
        out += [("data:" + n, g) for n, g in d.wf()]
        out += [("state:" + n, g) for n, g in state_ok(v, c.it, d)]
        for n in ("arrname", "insname", "corrname"):
            p = v.f(f, "oi_filter_spec.%s_pttn" % n)
            out.append(("pttn", z3.And(p.b == 0, p.i == 0)))
        acc = z3.And(accept_table(v, f, K, d.T(t_)), accept_record(v, f, K, d.rec(t_, k_)),
                     accept_channel(v, f, K, d.rec(t_, k_), d.W(t_), j_))
        c.defs["acc"] = FA([t_, k_, j_], ACC(t_, k_, j_) == acc, ACC(t_, k_, j_))
        out.append(("def", c.defs["acc"]))
        return out

    def on(c):
        v, f = c.old, flt(c)
        g = lambda n: v.f(f, "oi_filter_spec." + n) != 0
        return z3.Or(g("accept_t3amp"), g("accept_t3phi")) if K == "t3" else g("accept_" + K)

    def pos(v, it):
        lk, r, w = cur(v, it)
        return (lk.i, r, w)

    def skipped(c, d, upto, strict):
        p0 = pos(c.old, c.it)
        x = (t_, k_, j_)
        hi = (lex_lt if strict else lex_le)(x, upto) if upto is not None else TRUE
        return FA([t_, k_, j_], IMP(z3.And(d.inside(t_, k_, j_), lex_lt(p0, x), hi), z3.Not(ACC(t_, k_, j_))), ACC(t_, k_, j_))

    def post(c):
        d = data(c)
        v = c.new
        p = pos(v, c.it)
        ret = c.ex.as_bool(c.ret)
        nonempty = d.L.b != 0
        out = [("state:" + n, g) for n, g in state_ok(v, c.it, d)]
        out += [("found:accepted", IMP(ret, z3.And(on(c), nonempty, d.inside(*p), ACC(*p)))),
                ("found:advances", IMP(ret, lex_lt(pos(c.old, c.it), p))),
                ("found:skips_only_rejected", IMP(ret, skipped(c, d, p, True))),
                ("end:none_left", IMP(z3.And(z3.Not(ret), on(c), nonempty), skipped(c, d, None, False))),
                ("filter_switch", IMP(z3.Not(on(c)), z3.Not(ret)))]
        T = d.T(p[0])
        R = d.rec(p[0], p[1])
        for nm, val in (("extver", p[0] + 1), ("table", T), ("irec", p[1]), ("rec", R), ("iwave", p[2])):
            ref = c.args[nm]
            was, now = c.old.deref(ref), v.deref(ref)
            if isinstance(val, Ptr):
                eq = z3.And(now.b == val.b, now.i == val.i)
                un = z3.And(now.b == was.b, now.i == was.i)
            else:
                eq, un = now == val, now == was
            out.append(("found:out_" + nm, IMP(z3.And(ret, ref.c), eq)))
            out.append(("end:out_" + nm, IMP(z3.Or(z3.Not(ret), z3.Not(ref.c)), un)))
        f = flt(c)
        for n in ("arrname", "insname", "corrname"):
            q = v.f(f, "oi_filter_spec.%s_pttn" % n)
            out.append(("pttn_reset", z3.And(q.b == 0, q.i == 0)))
        for fl, t in c.ex.struct_fields("oi_filter_spec"):
            if t.kind != "ptr":
                out.append(("filter_kept:" + fl, v.f(f, "oi_filter_spec." + fl) == c.old.f(f, "oi_filter_spec." + fl)))
        out.append(("pData", v.f(c.it, IT + ".pData").b == d.D.b))
        return out

    def tmpl(c, L):
        d = data(c)
        f = flt(c)
        out = []
        for i in range(6):
            out += fact_cand(L, "state%d" % i, lambda v, i=i: state_ok(v, c.it, d)[i][1])
        out += fact_cand(L, "advance", lambda v: lex_le(pos(c.old, c.it), pos(v, c.it)))
        out += fact_cand(L, "skipped", lambda v: skipped(c, d, pos(v, c.it), False))
        out += fact_cand(L, "skipped<", lambda v: skipped(c, d, pos(v, c.it), True))
        return out

    SPECS[name] = Contract(name, ["it", "extver", "table", "irec", "rec", "iwave"], pre, post,
                           mod=lambda c: [(IT, c.it), ("oi_filter_spec", flt(c))], templates=[tmpl],
                           argkinds=dict(it="emb?", extver="optout", table="optout", irec="optout", rec="optout", iwave="optout"))

    def ipre(c):
        v = c.old
        d = Data(c, K, c.data)
        return ([("iter", obj(v, c.it, IT)), ("ds", z3.And(obj(v, c.data, "oi_fits"), c.it.b != c.data.b)),
                 ("flt", z3.Or(c.filter.b == 0, obj(v, c.filter, "oi_filter_spec")))] + [("data:" + n, g) for n, g in d.wf()])

    def ipost(c):
        v = c.new
        d = Data(c, K, c.data)
        f = flt(c)
        out = [("state:" + n, g) for n, g in state_ok(v, c.it, d)]
        lk, r, w = cur(v, c.it)
        out += [("before_first", z3.And(lk.i == 0, r == 0, w == -1)), ("pData", v.f(c.it, IT + ".pData").b == c.data.b)]
        for fl, t in c.ex.struct_fields("oi_filter_spec"):
            sf = "oi_filter_spec." + fl
            a, b = v.f(f, sf), c.old.f(c.filter, sf)
            if t.kind == "ptr":
                e = z3.And(a.b == b.b, a.i == b.i)
            else:
                e = a == b
            out.append(("filter_given:" + fl, IMP(c.filter.b != 0, e)))
        return out + [("filter_default:" + n, IMP(c.filter.b == 0, g)) for n, g in default_filter(v, f)]
    SPECS["oi_%s_iter_init" % K] = Contract("oi_%s_iter_init" % K, ["it", "data", "filter"], ipre, ipost,
                                            mod=lambda c: [(IT, c.it), ("oi_filter_spec", flt(c))])

    # ---- get_uv
    outs = ["ew", "u", "v"] if K != "t3" else ["ew", "u1", "v1", "u2", "v2"]

    def upre(c):
        v = c.old
        d = data(c)
        p = pos(v, c.it)
        return ([("iter", z3.And(obj(v, c.it, IT), obj(v, d.D, "oi_fits")))] + d.wf() + state_ok(v, c.it, d) +
                [("current", z3.And(d.L.b != 0, d.inside(*p)))])

    def upost(c):
        d = data(c)
        v = c.old
        p = pos(v, c.it)
        ew = wave(v, d.W(p[0]), p[2])
        R = d.rec(p[0], p[1])
        out = []
        for o in outs:
            ref = c.args[o]
            now = c.new.deref(ref)
            val = ew if o == "ew" else fop("fdiv_double")(v.f(R, "%s.%scoord" % (KINDS[K]["r"], o)), ew)
            out.append((o, IMP(ref.c, now == val)))
            out.append((o + "_null", IMP(z3.Not(ref.c), now == c.old.deref(ref))))
        return out
    SPECS["oi_%s_iter_get_uv" % K] = Contract("oi_%s_iter_get_uv" % K, ["it"] + outs, upre, upost,
                                              argkinds={o: "optout" for o in outs})


for K in ("vis", "vis2", "t3"):
    mk(K)
