"""Predicates over whole datasets (oi_fits)."""
from accept import *

OF = "oi_fits."


class DS:
    """view of a dataset's table lists in one state"""

    def __init__(self, v, D):
        self.v, self.D = v, D

    def L(self, K):
        return self.v.f(self.D, OF + LISTS[K])

    def n(self, K):
        l = self.L(K)
        return z3.If(l.b == 0, ZERO, self.v.llen(l.b))

    def T(self, K, t):
        return self.v.ld(self.L(K).b, t)

    def fld(self, K, t, f):
        return self.v.f(self.T(K, t), KINDS[K]["s"] + "." + f)

    def rec(self, K, t, k):
        return at(rec(self.v, K, self.T(K, t)), k)

    def rfld(self, K, t, k, f):
        return self.v.f(self.rec(K, t, k), KINDS[K]["r"] + "." + f)

    def targets(self):
        return Ptr(emb("oi_fits.targets", self.D.b, self.D.i))

    def header(self):
        return Ptr(emb("oi_fits.header", self.D.b, self.D.i))

    def wf_lists(self, kinds, arrays=True, positive=True, count=False):
        """lists of well-formed tables"""
        v = self.v
        out = [("dataset", z3.And(obj(v, self.D, "oi_fits"), self.D.b > 0, tag(self.D.b) == 0))]
        for K in kinds:
            d = KINDS[K]
            l = self.L(K)
            T = self.T(K, t_)
            g = z3.And(l.b != 0, 0 <= t_, t_ < v.llen(l.b))
            out.append((K + ".list", z3.And(l.i == 0, z3.Or(l.b == 0, z3.And(v.llen(l.b) > 0, l.b < v.next, l.b > 0)))))
            out.append((K + ".tables", FA([t_], IMP(g, z3.And(obj(v, T, d["s"]), T.b < v.next, tag(T.b) == 0)), T.b)))
            if count:
                out.append((K + ".count", v.f(self.D, OF + NUMS[K]) == self.n(K)))
            if d["r"]:
                n, r = nrec(v, K, T), rec(v, K, T)
                out.append((K + ".records", FA([t_], IMP(g, z3.And(n > 0 if positive else n >= 0,
                                                                   z3.Or(n == 0, live(v, r, n * ssize(v.ex, d["r"]))))), T.b)))
                if arrays and d["arrs"]:
                    nw = v.f(T, d["s"] + ".nwave")
                    out.append((K + ".nwave", FA([t_], IMP(g, nw > 0), T.b)))
                    for a, ty, ln, cond in d["arrs"]:
                        q = v.f(at(r, k_), "%s.%s" % (d["r"], a))
                        out.append((K + "." + a, FA([t_, k_], IMP(AND(g, rng(k_, n), acond(v, K, T, cond)),
                                                                  live(v, q, alen(v, K, T, ln) * SZ[ty])), q.b)))
            else:
                for a, ty, ln in d["tarrs"]:
                    q = v.f(T, "%s.%s" % (d["s"], a))
                    m = v.f(T, d["s"] + "." + ln)
                    out.append((K + "." + a, FA([t_], IMP(g, z3.And(m > 0, live(v, q, m * SZ[ty]))), T.b)))
        return out

    def wf_targets(self):
        v, t = self.v, self.targets()
        n, r = v.f(t, "oi_target.ntarget"), v.f(t, "oi_target.targ")
        return [("targets", z3.And(n >= 0, z3.Or(n == 0, live(v, r, n * ssize(v.ex, "target")))))]
