"""Contracts of oifile.c functions that read a dataset: lookups, classification, counting."""
from dataset import *
from lib import fmtfn

SPECS = {}
FLEN = 71


def ds(c):
    return DS(c.old, c.p)


def eqp(a, b):
    return z3.And(a.b == b.b, a.i == b.i)


# ------------------------------------------------------------------ lookups by name
for nm, h in (("array", "arrayHash"), ("wavelength", "wavelengthHash"), ("corr", "corrHash")):
    SPECS["oi_fits_lookup_" + nm] = Contract(
        "oi_fits_lookup_" + nm, ["p", "name"],
        lambda c: [("dataset", obj(c.old, c.p, "oi_fits"))],
        lambda c, h=h: [("registered_or_NULL", eqp(c.ret, lookup(c.old, c.p, h, c.ex.str_at(c.name, c.old.st))))],
        argkinds=dict(name="str"))


def first_match(c, n, match, base, what):
    """ret = &base[first k with match(k)] or NULL"""
    hit = z3.And(c.ret.b == base.b, 0 <= c.ret.i, c.ret.i < n, match(c.ret.i), n > 0)
    k = k_
    none = lambda hi: FA([k], IMP(rng(k, hi), z3.Not(match(k))))
    return [(what + ":match_or_NULL", z3.Or(c.ret.b == 0, hit)),
            (what + ":first", IMP(c.ret.b != 0, none(c.ret.i))),
            (what + ":none", IMP(c.ret.b == 0, none(n)))]


def elem_parts(c):
    v = c.old
    A = lookup(v, c.p, "arrayHash", c.ex.str_at(c.name, v.st))
    return v, A, v.f(A, "oi_array.nelement"), v.f(A, "oi_array.elem")


def elem_pre(c):
    v, A, n, e = elem_parts(c)
    return [("dataset", obj(v, c.p, "oi_fits")),
            ("array", IMP(A.b != 0, z3.And(obj(v, A, "oi_array"), n >= 0, z3.Or(n == 0, live(v, e, n * ssize(c.ex, "element"))))))]


def elem_post(c):
    v, A, n, e = elem_parts(c)
    m = lambda k: v.f(at(e, k), "element.sta_index") == c.sta
    return ([("no_array", IMP(A.b == 0, c.ret.b == 0))] +
            [(a, IMP(A.b != 0, g)) for a, g in first_match(c, n, m, e, "element")])


def elem_t(c, L):
    v, A, n, e = elem_parts(c)

    def fn(w, k):
        x = v.f(at(e, k), "element.sta_index")
        return x != c.sta, x
    return range_cands(L, "nomatch", fn)


SPECS["oi_fits_lookup_element"] = Contract("oi_fits_lookup_element", ["p", "name", "sta"], elem_pre, elem_post,
                                           templates=[elem_t], argkinds=dict(name="str"))


def mk_targ(fname, match, argkinds):
    def parts(c):
        v = c.old
        t = DS(v, c.p).targets()
        return v, v.f(t, "oi_target.ntarget"), v.f(t, "oi_target.targ")

    def pre(c):
        return [("dataset", obj(c.old, c.p, "oi_fits"))] + DS(c.old, c.p).wf_targets()

    def post(c):
        v, n, r = parts(c)
        return first_match(c, n, lambda k: match(c, v, at(r, k)), r, "target")

    def tm(c, L):
        v, n, r = parts(c)

        def fn(w, k):
            x = v.f(at(r, k), "target.target_id")
            return z3.Not(match(c, v, at(r, k))), None
        return range_cands(L, "nomatch", fn)
    SPECS[fname] = Contract(fname, ["p", "key"], pre, post, templates=[tm], argkinds=argkinds)


mk_targ("oi_fits_lookup_target", lambda c, v, q: v.f(q, "target.target_id") == c.key, {})
mk_targ("oi_fits_lookup_target_by_name", lambda c, v, q: v.f(q, "target.target") == c.ex.str_at(c.key, c.old.st), dict(key="str"))


# ------------------------------------------------------------------ version classification
def one_parts(c):
    return [("array", 1), ("wavelength", 1), ("vis", 1), ("vis2", 1), ("t3", 1)]


def one_post(c):
    d = ds(c)
    v = c.old
    ret = c.ex.as_bool(c.ret)
    two = v.f(d.header(), "oi_header.content") == slit("OIFITS2")
    bad = z3.Or(two, v.f(d.targets(), "oi_target.revision") != 1)
    allok = [FA([t_], IMP(rng(t_, d.n(K)), d.fld(K, t_, "revision") == r)) for K, r in one_parts(c)]
    ok = z3.And(z3.Not(bad), *allok)
    return [("true_only_if_" + K, IMP(ret, a)) for (K, r), a in zip(one_parts(c), allok)] + \
        [("true_only_if_header", IMP(ret, z3.Not(bad))), ("false_only_if_bad", IMP(ok, ret))]


def one_t(c, L):
    d = ds(c)
    out = []
    for K, r in one_parts(c):
        def fn(w, t, K=K, r=r):
            x = d.fld(K, t, "revision")
            return x == r, x
        out += range_cands(L, "rev_" + K, fn)
    return out


SPECS["is_oi_fits_one"] = Contract("is_oi_fits_one", ["p"], lambda c: ds(c).wf_lists([K for K, r in one_parts(c)], arrays=False),
                                   one_post, templates=[one_t])
SPECS["is_oi_fits_two"] = Contract(
    "is_oi_fits_two", ["p"], lambda c: [("dataset", obj(c.old, c.p, "oi_fits"))],
    lambda c: [("content", c.ex.as_bool(c.ret) == (c.old.f(ds(c).header(), "oi_header.content") == slit("OIFITS2")))])


# ------------------------------------------------------------------ counting unflagged data
PCOUNT = {K: z3.Function("unflagged_%s" % K, I, I, I, I) for K in ("vis", "vis2", "t3")}


def count_defs(c, K):
    """number of unflagged data before (table t, record k, channel j), in file order"""
    d = ds(c)
    P = PCOUNT[K]
    v = c.old
    nr, nw = d.fld(K, t_, "numrec"), d.fld(K, t_, "nwave")
    fl = v.h("char", d.rfld(K, t_, k_, "flag"), j_)
    g = rng(t_, d.n(K))
    return [("base", P(0, 0, 0) == 0),
            ("channel", FA([t_, k_, j_], IMP(z3.And(g, rng(k_, nr), rng(j_, nw)),
                                             P(t_, k_, j_ + 1) == P(t_, k_, j_) + z3.If(fl == 0, 1, 0)), fl)),
            ("record", FA([t_, k_], IMP(z3.And(g, rng(k_, nr)), P(t_, k_ + 1, 0) == P(t_, k_, nw)), P(t_, k_, nw))),
            ("table", FA([t_], IMP(g, P(t_ + 1, 0, 0) == P(t_, nr, 0)), P(t_, nr, 0)))]


def count_inst(c, K):
    """instances of the definition around a point"""
    defs = dict(count_defs(c, K))

    def at3(t, k, j):
        out = []
        for q, vals in (("channel", (t, k, j)), ("channel", (t, k, j - 1)), ("record", (t, k)), ("record", (t, k - 1)),
                        ("table", (t,)), ("table", (t - 1,))):
            f = defs[q]
            out.append(z3.simplify(z3.substitute_vars(f.body(), *reversed(vals)), arith_lhs=False))
        return out
    return at3


def count_pre(c):
    return ds(c).wf_lists(list(PCOUNT)) + [(K + "." + n, g) for K in PCOUNT for n, g in count_defs(c, K)]


def count_post(c):
    d = ds(c)
    out = []
    for K, o in (("vis", c.nvis), ("vis2", c.nvis2), ("t3", c.nt3)):
        now = c.new.deref(o)
        out.append((K, IMP(o.c, now == PCOUNT[K](d.n(K), 0, 0))))
        out.append((K + "_null", IMP(z3.Not(o.c), now == c.old.deref(o))))
    return out


def cursor_kinds(c, L, kinds):
    """GList cursors in scope and the table list each one walks (where that is syntactically evident)"""
    d = ds(c)
    mem = c.defs.setdefault("cursor_kinds", {})
    out = []
    for k, v in sorted(L.s0.env.items(), key=str):
        if isinstance(v, Ptr) and L.is_list(k):
            if k in L.modenv:
                hit = [K for K in kinds if z3.simplify(v.b).eq(z3.simplify(d.L(K).b))]
                if hit:
                    mem[k] = hit
            out.append((k, mem.get(k, list(kinds))))
    mods = [x for x in out if x[0] in L.modenv]
    return mods or out


def cond_vars(n):
    """ids of the variables a loop condition mentions"""
    out = set()
    if n:
        if n.get("kind") == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
        for x in n.get("inner", ()):
            out |= cond_vars(x)
    return out


def count_t(c, L):
    """x - x_entry == P(cursor, rec, chan) - P(at entry)"""
    ex = L.ex
    d = ds(c)
    s0 = L.s0
    out = []
    ints = [k for k, v in sorted(s0.env.items(), key=str) if isinstance(v, z3.ExprRef) and v.sort() == I and k[0] not in ("g", "arg")]
    mod = [k for k in ints if k in L.modenv]
    # coordinates: integer variables that some enclosing loop steps
    mem = c.defs.setdefault("loopvars", set())
    used = cond_vars(L.cond)
    mem |= {k for k in mod if k[1] in used}
    loopvars = [k for k in ints if k in mem]
    mod = [k for k in mod if k not in mem]
    for lk, kinds in cursor_kinds(c, L, list(PCOUNT)):
        for K in kinds:
            P = PCOUNT[K]
            inst = count_inst(c, K)

            def hint(st, lk=lk, inst=inst, K=K):
                p = ex.to_ptr(st.env[lk])
                t = z3.If(p.b == 0, d.n(K), p.i)
                out = inst(t, ZERO, ZERO)
                for a in loopvars:
                    for b in loopvars:
                        if a != b:
                            out += inst(t, st.env[a], st.env[b])
                return out
            L.extra_hints.append(hint)

            def pos(st, lk=lk, K=K):
                p = ex.to_ptr(st.env[lk])
                return z3.If(p.b == 0, d.n(K), p.i)
            for x in mod:
                for a in ints + [None]:
                    for b in ints + [None]:
                        if a is not None and a in (b, x) or b == x:
                            continue
                        if (a is not None and a not in loopvars) or (b is not None and b not in loopvars):
                            continue
                        if lk not in L.modenv and a not in L.modenv and b not in L.modenv:
                            continue

                        def f(st, x=x, a=a, b=b, pos=pos, P=P):
                            co = lambda s: P(pos(s), ZERO if a is None else s.env[a], ZERO if b is None else s.env[b])
                            return st.env[x] - s0.env[x] == co(st) - co(s0)
                        out.append(Cand("count_%s %s(%s,%s)" % (K, x[-1], a and a[-1], b and b[-1]), f))
            out.append(Cand("in_%s" % K, lambda st, lk=lk, K=K: z3.Or(st.env[lk].b == 0, st.env[lk].b == d.L(K).b)))
    return out


SPECS["count_oi_fits_data"] = Contract("count_oi_fits_data", ["p", "nvis", "nvis2", "nt3"], count_pre, count_post,
                                       templates=[count_t], argkinds=dict(nvis="optout", nvis2="optout", nt3="optout"))

# ------------------------------------------------------------------ upgrades
for K in ("target", "wavelength", "array", "vis", "vis2", "t3"):
    s = KINDS[K]["s"]

    def upre(c, K=K):
        v = c.old
        if K in DATAKINDS:
            r, n = rec(v, K, c.p), nrec(v, K, c.p)
            return [("table", z3.And(obj(v, c.p, KINDS[K]["s"]), n >= 0,
                                     z3.Or(n == 0, live(v, r, n * ssize(c.ex, KINDS[K]["r"])))))]
        return [("table", obj(v, c.p, KINDS[K]["s"]))]

    def upost(c, K=K):
        s = KINDS[K]["s"]
        o, w = c.old, c.new
        rv = o.f(c.p, s + ".revision")
        out = [("revision", w.f(c.p, s + ".revision") == z3.If(rv == 1, 2, rv))]
        for f, t in c.ex.struct_fields(s):
            if f == "revision":
                continue
            a, b = w.f(c.p, s + "." + f), o.f(c.p, s + "." + f)
            out.append(("kept:" + f, eqp(a, b) if isinstance(a, Ptr) else a == b))
        if K in DATAKINDS:
            rr = KINDS[K]["r"]
            q = at(rec(o, K, c.p), k_)
            g = rng(k_, nrec(o, K, c.p))
            for f, t in c.ex.struct_fields(rr):
                a, b = w.f(q, rr + "." + f), o.f(q, rr + "." + f)
                if f == "time":
                    out.append(("time_zeroed", FA(k_, IMP(z3.And(g, rv == 1), a == flit(0.0)))))
                    out.append(("time_kept", FA(k_, IMP(z3.And(g, rv != 1), a == b))))
                else:
                    out.append(("kept:record." + f, FA(k_, IMP(g, eqp(a, b) if isinstance(a, Ptr) else a == b))))
        return out

    def ut(c, L, K=K):
        if K not in DATAKINDS:
            return []
        rr = KINDS[K]["r"]

        def fn(v, k):
            x = v.f(at(rec(c.old, K, c.p), k), rr + ".time")
            return x == flit(0.0), x
        return range_cands(L, "zeroed", fn)
    SPECS["upgrade_oi_" + K] = Contract(
        "upgrade_oi_" + K, ["p"], upre, upost,
        mod=lambda c, K=K: [(KINDS[K]["s"], c.p)] + ([(KINDS[K]["r"], rec(c.old, K, c.p))] if K in DATAKINDS else []),
        templates=[ut])

# ------------------------------------------------------------------ time span
def lo(a, b):
    return flt(a, b)


def hi(a, b):
    return flt(b, a)


def parts_upto(c, v, x, K, T, R, lt):
    """no record of kind K in tables < T, nor in table T below record R, beats x"""
    d = ds(c)
    m = d.rfld(K, t_, k_, "mjd")
    g = z3.And(rng(t_, d.n(K)), rng(k_, d.fld(K, t_, "numrec")), z3.Or(t_ < T, z3.And(t_ == T, k_ < R)))
    return FA([t_, k_], IMP(g, z3.Not(lt(m, x))), m)


def mk_span(fname, init, lt):
    def post(c):
        d = ds(c)
        out = []
        some = [c.ret == flit(init)]
        for K in DATAKINDS:
            g = z3.And(rng(t_, d.n(K)), rng(k_, d.fld(K, t_, "numrec")))
            m = d.rfld(K, t_, k_, "mjd")
            out.append(("bound_" + K, FA([t_, k_], IMP(g, z3.Not(lt(m, c.ret))), m)))
            some.append(z3.Exists([t_, k_], z3.And(g, m == c.ret)))
        return out + [("attained", z3.Or(*some))]

    def tm(c, L):
        ex = L.ex
        d = ds(c)
        s0 = L.s0
        out = []
        fl = [k for k, v in sorted(s0.env.items(), key=str) if isinstance(v, z3.ExprRef) and v.sort() == F and k in L.modenv]
        cur = cursor_kinds(c, L, DATAKINDS)
        ints = [k for k, v in sorted(s0.env.items(), key=str) if isinstance(v, z3.ExprRef) and v.sort() == I and k in L.modenv]
        for x in fl:
            def ex_(st, x=x):
                some = [st.env[x] == flit(init)]
                for K in DATAKINDS:
                    g = z3.And(rng(t_, d.n(K)), rng(k_, d.fld(K, t_, "numrec")))
                    some.append(z3.Exists([t_, k_], z3.And(g, d.rfld(K, t_, k_, "mjd") == st.env[x])))
                return z3.Or(*some)
            out.append(Cand("attained " + x[-1], ex_))
            out.append(Cand("monotone " + x[-1], lambda st, x=x: z3.Not(lt(s0.env[x], st.env[x]))))
            for K in DATAKINDS:
                out.append(Cand("all_%s %s" % (K, x[-1]), lambda st, x=x, K=K: parts_upto(c, st, st.env[x], K, d.n(K), ZERO, lt)))
                for lk, kinds in cur:
                    if K not in kinds:
                        continue

                    def pos(st, lk=lk, K=K):
                        p = ex.to_ptr(st.env[lk])
                        return z3.If(p.b == 0, d.n(K), p.i)
                    for r in ints + [None]:
                        out.append(Cand("upto_%s %s(%s)" % (K, x[-1], r and r[-1]), lambda st, x=x, K=K, r=r, pos=pos: parts_upto(
                            c, st, st.env[x], K, pos(st), ZERO if r is None else st.env[r], lt)))
        return out
    SPECS[fname] = Contract(fname, ["p"], lambda c: ds(c).wf_lists(DATAKINDS, arrays=False, positive=False), post, templates=[tm],
                            helper=True, config=dict(order=True))


mk_span("get_min_mjd", 100000.0, lo)
mk_span("get_max_mjd", 0.0, hi)


def is_extreme(c, x, init, lt):
    d = ds(c)
    some = [x == flit(init)]
    out = []
    for K in DATAKINDS:
        g = z3.And(rng(t_, d.n(K)), rng(k_, d.fld(K, t_, "numrec")))
        m = d.rfld(K, t_, k_, "mjd")
        out.append(z3.ForAll([t_, k_], IMP(g, z3.Not(lt(m, x))), patterns=[m]))
        some.append(z3.Exists([t_, k_], z3.And(g, m == x)))
    return z3.And(z3.Or(*some), *out)


def at_post(c):
    v = c.old
    d = ds(c)
    ret = c.ex.as_bool(c.ret)
    counts = z3.And(v.f(c.p, OF + "numArray") <= 1, v.f(c.p, OF + "numWavelength") == 1, v.f(d.targets(), "oi_target.ntarget") == 1)
    mn, mx = z3.Consts("mn mx", F)
    gap = fop("ffabs", 1)(fop("fsub_double")(mx, mn))
    return [("single", IMP(ret, counts)),
            ("span", IMP(counts, z3.Exists([mn, mx], z3.And(is_extreme(c, mn, 100000.0, lo), is_extreme(c, mx, 0.0, hi),
                                                            ret == z3.Not(flt(c.days, gap))))))]


SPECS["is_atomic"] = Contract("is_atomic", ["p", "days"], lambda c: ds(c).wf_lists(DATAKINDS, arrays=False, positive=False), at_post)
