"""Contracts of dup_oi_* (deep copies), alloc_oi_*, free_oi_*."""
from tables import *

SPECS = {}


def copied(vn, vo, K, q, p):
    """contents of table q (in vn) equal those of p (in vo), field by field"""
    d = KINDS[K]
    ex = vn.ex
    out = []
    for f, t in scalars(ex, d["s"]):
        sf = "%s.%s" % (d["s"], f)
        out.append((f, vn.f(q, sf) == vo.f(p, sf)))
    if d["r"]:
        n = nrec(vo, K, p)
        rq, rp = rec(vn, K, q), rec(vo, K, p)
        for f, t in scalars(ex, d["r"]):
            sf = "%s.%s" % (d["r"], f)
            x = vn.f(at(rq, k_), sf)
            out.append(("record." + f, FA(k_, IMP(rng(k_, n), x == vo.f(at(rp, k_), sf)), x)))
        for a, ty, ln, cond in d["arrs"]:
            sf = "%s.%s" % (d["r"], a)
            aq, ap = vn.f(at(rq, k_), sf), vo.f(at(rp, k_), sf)
            x = vn.h(ty, aq, j_)
            out.append(("record." + a, FA([k_, j_], IMP(AND(rng(k_, n), rng(j_, alen(vo, K, p, ln)), acond(vo, K, p, cond)),
                                                        z3.And(x == vo.h(ty, ap, j_), aq.i == 0)), x)))
    else:
        for a, ty, ln in d["tarrs"]:
            sf = "%s.%s" % (d["s"], a)
            aq, ap = vn.a(q, sf), vo.a(p, sf)
            x = vn.h(ty, aq, j_)
            out.append((a, FA(j_, IMP(rng(j_, vo.f(p, d["s"] + "." + ln)), x == vo.h(ty, ap, j_)), x)))
    return out


def independent(vn, vo, K, q):
    """every block reachable from q is newly allocated (so shares nothing with anything that existed)"""
    d = KINDS[K]
    out = [("table.fresh", z3.And(q.b >= vo.next, q.b < vn.next, q.i == 0, tag(q.b) == 0))]
    if d["r"]:
        rq = rec(vn, K, q)
        out.append(("records.fresh", rq.b >= vo.next))
        for a, ty, ln, cond in d["arrs"]:
            x = vn.f(at(rq, k_), "%s.%s" % (d["r"], a)).b
            out.append((a + ".fresh", FA(k_, IMP(AND(rng(k_, nrec(vn, K, q)), acond(vn, K, q, cond)), x >= vo.next), x)))
    else:
        for a, ty, ln in d["tarrs"]:
            out.append((a + ".fresh", vn.f(q, "%s.%s" % (d["s"], a)).b >= vo.next))
    return out


def mk_dup(K):
    d = KINDS[K]

    def pre(c):
        return wf(c.old, K, c.p)

    def post(c):
        return ([("copy:" + n, g) for n, g in copied(c.new, c.old, K, c.ret, c.p)] +
                [("indep:" + n, g) for n, g in independent(c.new, c.old, K, c.ret)] +
                [("wf:" + n, g) for n, g in wf(c.new, K, c.ret, own=True)])

    def tmpl(c, L):
        out = []
        ex = L.ex
        vo = c.old
        if not d["r"] or not d["arrs"]:
            return out
        # where the copy lives: any record block allocated before the loop
        for base in record_bases(L, d):
            n0 = L.s0.heap["NEXT"]
            for a, ty, ln, cond in d["arrs"]:
                sf = "%s.%s" % (d["r"], a)

                def fn(v, k, a=a, ty=ty, ln=ln, cond=cond, sf=sf, base=base):
                    q = v.f(Ptr(base, k), sf)
                    return IMP(acond(vo, K, c.p, cond), z3.And(
                        q.b >= n0, live(v, q, alen(vo, K, c.p, ln) * SZ[ty]), own_(v, q, sf, Ptr(base, k)))), q.b
                out += range_cands(L, "live:" + a, fn)

                def fn2(v, k, a=a, ty=ty, ln=ln, cond=cond, sf=sf, base=base):
                    q = v.f(Ptr(base, k), sf)
                    p = vo.f(at(rec(vo, K, c.p), k), sf)
                    x = v.h(ty, q, j_)
                    return IMP(AND(acond(vo, K, c.p, cond), rng(j_, alen(vo, K, c.p, ln))), x == vo.h(ty, p, j_)), x, j_
                out += range_cands(L, "copy:" + a, fn2)
        return out
    SPECS["dup_oi_" + K] = Contract("dup_oi_" + K, ["p"], pre, post, templates=[tmpl], config=dict(own=True))


def record_bases(L, d):
    """bases of record arrays written in this loop"""
    bs = {}
    for nm, b, i in L.writes:
        if nm.startswith("F:%s." % d["r"]) and L.invariant_term(b):
            bs[b.get_id()] = b
    return list(bs.values())


for K in KINDS:
    mk_dup(K)
