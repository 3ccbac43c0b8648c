"""Contracts of the functions that copy all tables of one kind into a merged dataset (merge_all_oi_*).

The tables of one kind in all inputs, in input order and then table order, form one sequence:
  NBEF[K](m)  number of tables of the kind in the first m inputs
  SRC[K](p)   p-th table of the sequence (block), INP[K](p) the input it comes from
These ghost functions are defined by the preconditions (definitional equations over the entry state)."""
from dataset import *
import spec_dup, spec_file
from spec_dup import record_bases
from spec_filter3 import unq, quant, table_shape

SPECS = {}
for n_ in KINDS:
    SPECS["dup_oi_" + n_] = spec_dup.SPECS["dup_oi_" + n_]
for n_ in ("target", "wavelength", "array", "vis", "vis2", "t3"):
    SPECS["upgrade_oi_" + n_] = spec_file.SPECS["upgrade_oi_" + n_]
SPECS["oi_fits_lookup_target"] = spec_file.SPECS["oi_fits_lookup_target"]
MK = ["inspol", "vis", "vis2", "t3", "flux"]
NBEF = {K: z3.Function("tables_before_" + K, I, I) for K in KINDS}
SRC = {K: z3.Function("source_table_" + K, I, I) for K in KINDS}
INP = {K: z3.Function("source_input_" + K, I, I) for K in KINDS}
TGT = z3.Function("first_target", I, I, I)      # dataset, target id -> index of the first target with that id
m_, p_, t_, q_ = z3.Ints("m p t q")
LISTF = lambda K: [("F:oi_fits.%s.b" % LISTS[K]), ("F:oi_fits.%s.i" % LISTS[K]), "F:oi_fits." + NUMS[K]]
NAMES = dict(arrname=("arr", "oi_array.arrname"), insname=("ins", "oi_wavelength.insname"), corrname=("corr", "oi_corr.corrname"))


FLEN = 71       # FLEN_VALUE: capacity of the name fields


def refs(K):
    """name references of a table: field -> needs a non-empty value?"""
    return dict(inspol=["arrname"]).get(K, ["arrname", "insname", "corrname"])


def nin(v, l):
    return z3.If(l.b == 0, ZERO, v.llen(l.b))


def inp(v, l, m):
    return v.ld(l.b, m)


def ntab(v, l, K, m):
    return DS(v, inp(v, l, m)).n(K)


def src(K, p):
    return Ptr(SRC[K](p), ZERO)


def name_after(v, c, nm, m, old):
    """what a name of input m is translated to"""
    pn, sf = NAMES[nm]
    h = v.ld(getattr(c, pn).b, m)
    x = sel(v.map("HVb"), h.b, old)
    new = sel(v.map("F:" + sf), invb(x), invi(x))
    return new, x, h


def target_of(v, c, K, p, id):
    D = inp(v, c.inl, INP[K](p))
    return Ptr(v.f(DS(v, D).targets(), "oi_target.targ").b, TGT(D.b, id)), D


def id_after(v, c, K, p, id):
    q, D = target_of(v, c, K, p, id)
    n = v.f(q, "target.target")
    x = Ptr(sel(v.map("HVb"), c.tid.b, n), sel(v.map("HVi"), c.tid.b, n))
    return v.h("int", x), x, n


def mk_merge(K):
    d = KINDS[K]
    s, rs = d["s"], d["r"]
    name = "merge_all_oi_" + K
    ps = ["inl", "tid", "arr", "ins"] + (["corr"] if K != "inspol" else []) + ["out"]
    hl = [x for x in ("arr", "ins", "corr") if x in ps]

    def total(v, c):
        return NBEF[K](nin(v, c.inl))

    def pre(c):
        v = c.old
        n = nin(v, c.inl)
        N = total(v, c)
        gm = rng(m_, n)
        D = inp(v, c.inl, m_)
        out = [("inputs", z3.And(c.inl.i == 0, c.inl.b >= 0, c.inl.b < v.next, z3.Or(c.inl.b == 0, v.llen(c.inl.b) > 0))),
               ("input", FA([m_], IMP(gm, z3.And(obj(v, D, "oi_fits"), D.b > 0, D.b < v.next, tag(D.b) == 0, D.b != c.out.b)), D.b)),
               ("out", z3.And(obj(v, c.out, "oi_fits"), c.out.b > 0, c.out.b < v.next, tag(c.out.b) == 0)),
               ("out_empty", z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0, v.f(c.out, OF + NUMS[K]) == 0))]
        # definition of the sequence
        l = DS(v, D).L(K)
        out.append(("def.count0", NBEF[K](ZERO) == 0))
        out.append(("def.count", FA([m_], IMP(gm, NBEF[K](m_ + 1) == NBEF[K](m_) + ntab(v, c.inl, K, m_)), D.b)))
        T = v.ld(l.b, t_)
        x = NBEF[K](m_) + t_
        out.append(("def.table", FA([m_, t_], IMP(z3.And(gm, l.b != 0, rng(t_, v.llen(l.b))), z3.And(
            T.b == SRC[K](x), T.i == 0, INP[K](x) == m_, x < N)), T.b)))
        out.append(("lists", FA([m_], IMP(gm, z3.And(l.i == 0, NBEF[K](m_) >= 0, z3.Or(l.b == 0, z3.And(v.llen(l.b) > 0, l.b < v.next, l.b > 0)))), l.b)))
        # every table is well-formed
        g = rng(p_, N)
        P = src(K, p_)
        out.append(("input_of", FA([p_], IMP(g, rng(INP[K](p_), n)), INP[K](p_))))
        out.append(("table", FA([p_], IMP(g, z3.And(P.b < v.next, P.b > 0, tag(P.b) == 0)), P.b)))
        for nm, f in wf(v, K, P):
            if z3.is_quantifier(f):
                q = v.f(at(rec(v, K, P), k_), "%s.%s" % (rs, nm.split(".")[1]))
                out.append((nm, FA([p_, k_], IMP(g, z3.substitute_vars(f.body(), k_)), q.b)))
            else:
                out.append((nm, FA([p_], IMP(g, f), P.b)))
        # references resolve
        for h in hl:
            a = getattr(c, h)
            e = v.ld(a.b, m_)
            out.append(("names:" + h, z3.And(a.i == 0, a.b >= 0, a.b < v.next, z3.Or(a.b == 0, v.llen(a.b) > 0), nin(v, a) == n)))
            out.append(("names.hash:" + h, FA([m_], IMP(gm, z3.And(e.b != 0, e.i == 0)), e.b)))
        for nm in refs(K):
            old = v.f(P, s + "." + nm)
            new, x, h = name_after(v, c, nm, INP[K](p_), old)
            known = z3.And(sel(v.map("HHas"), h.b, old), x != 0, slen(new) < FLEN, sel(v.map("HVi"), h.b, old) == 0, tag(x) == emb_tag(NAMES[nm][1]))
            out.append(("resolves:" + nm, FA([p_], IMP(z3.And(g, z3.Or(nm == "insname", old != EMPTY)), known), old)))
        gk = z3.And(g, rng(k_, nrec(v, K, P)))
        R = at(rec(v, K, P), k_)
        if K == "inspol":
            old = v.f(R, rs + ".insname")
            new, x, h = name_after(v, c, "insname", INP[K](p_), old)
            known = z3.And(sel(v.map("HHas"), h.b, old), x != 0, slen(new) < FLEN, sel(v.map("HVi"), h.b, old) == 0, tag(x) == emb_tag(NAMES["insname"][1]))
            out.append(("resolves:record.insname", FA([p_, k_], IMP(gk, known), old)))
        id = v.f(R, rs + ".target_id")
        q, D = target_of(v, c, K, p_, id)
        nt = v.f(DS(v, D).targets(), "oi_target.ntarget")
        tp = v.f(DS(v, D).targets(), "oi_target.targ")
        out.append(("targets", FA([m_], IMP(gm, z3.And(*[f for _, f in DS(v, inp(v, c.inl, m_)).wf_targets()])), inp(v, c.inl, m_).b)))
        out.append(("targets0", FA([m_], IMP(gm, v.f(DS(v, inp(v, c.inl, m_)).targets(), "oi_target.targ").i == 0), inp(v, c.inl, m_).b)))
        w, x, n_ = id_after(v, c, K, p_, id)
        out.append(("resolves:target", FA([p_, k_], IMP(gk, z3.And(rng(q.i, nt), v.f(q, "target.target_id") == id)), id)))
        u = v.f(Ptr(tp.b, q_), "target.target_id")
        out.append(("def.first_target", FA([p_, k_, q_], IMP(z3.And(gk, rng(q_, q.i)), u != id), (id, u))))
        out.append(("resolves:target_id", FA([p_, k_], IMP(gk, z3.And(sel(v.map("HHas"), c.tid.b, n_), live(v, x, 4))), id)))
        out.append(("target_hash", z3.And(c.tid.b != 0)))
        return out

    def clauses(vn, vo, c, p):
        """output table p, in terms of the p-th input table"""
        Q, P = DS(vn, c.out).T(K, p), src(K, p)
        out = []
        for nm, g in spec_dup.copied(vn, vo, K, Q, P):
            nm, xs, body, pat = unq(nm, g)
            if nm in refs(K):
                old = vo.f(P, s + "." + nm)
                new, x, h = name_after(vo, c, nm, INP[K](p), old)
                if nm != "insname":
                    new = z3.If(old == EMPTY, EMPTY, new)
                out.append(("ref:" + nm, [], vn.f(Q, s + "." + nm) == new, None))
                continue
            if nm in ("record.target_id", "record.insname") or nm == "record.time" and K in ("vis", "vis2", "t3"):
                f = nm.split(".")[1]
                R = at(rec(vo, K, P), k_)
                old = vo.f(R, rs + "." + f)
                val = vn.f(at(rec(vn, K, Q), k_), rs + "." + f)
                if f == "target_id":
                    new = id_after(vo, c, K, p, old)[0]
                elif f == "insname":
                    new = name_after(vo, c, "insname", INP[K](p), old)[0]
                else:
                    new = z3.If(vo.f(P, s + ".revision") == 1, flit(0.0), old)
                out.append(("value:time" if f == "time" else "ref:" + nm, [k_], IMP(rng(k_, nrec(vo, K, P)), val == new), val))
                continue
            if nm == "revision" and K in ("vis", "vis2", "t3"):
                r = vo.f(P, s + ".revision")
                out.append(("value:revision", [], vn.f(Q, s + ".revision") == z3.If(r == 1, 2, r), None))
                continue
            out.append(("value:" + nm, xs, body, pat))
        return out

    def shape(vn, vo, p):
        return table_shape(vn, vo, K, p)

    def post(c):
        v, o = c.new, c.old
        Q = DS(v, c.out)
        N = total(o, c)
        out = [("count:list", Q.n(K) == N), ("count:num", v.f(c.out, OF + NUMS[K]) == N)]
        for nm, xs, g, pat in clauses(v, o, c, p_):
            out.append((nm, quant([p_] + xs, rng(p_, N), g, None)))
        for nm, xs, g, pat in table_shape(v, o, K, Q.T(K, p_)):
            out.append(("shape." + nm, quant([p_] + xs, rng(p_, N), g, pat)))
        return out

    def tmpl(c, L):
        ex, o = L.ex, c.old
        out = []
        num = lambda v: v.f(c.out, OF + NUMS[K])
        islist = [k for k, v in L.s0.env.items() if L.is_list(k)]
        if not any(k in L.modenv for k in islist):
            # loops over the records of the new table
            for base in record_bases(L, d):
                s0 = V(ex, L.s0)
                P = src(K, num(s0))
                for f in ("target_id", "insname"):
                    if f == "insname" and K != "inspol":
                        continue
                    if not any(nm == "F:%s.%s" % (rs, f) for nm, b, i in L.writes):
                        continue
                    for mn, mg in L.metas():
                        def done(st, mg=mg, f=f):
                            v = V(ex, st)
                            x = v.f(Ptr(base, k_), rs + "." + f)
                            old = o.f(at(rec(o, K, P), k_), rs + "." + f)
                            new = id_after(o, c, K, num(s0), old)[0] if f == "target_id" else name_after(o, c, f, INP[K](num(s0)), old)[0]
                            return FA([k_], IMP(rng(k_, mg(st)), x == new), x)

                        def todo(st, mg=mg, f=f):
                            x = V(ex, st).f(Ptr(base, k_), rs + "." + f)
                            return FA([k_], IMP(k_ >= mg(st), x == s0.f(Ptr(base, k_), rs + "." + f)), x)
                        out += [Cand("done:%s[<%s]" % (f, mn), done), Cand("todo:%s[>=%s]" % (f, mn), todo)]
            return out
        n0 = L.s0.heap["NEXT"]
        out += fact_cand(L, "count", lambda v: num(v) == DS(v, c.out).n(K))
        out += fact_cand(L, "list", lambda v: z3.Or(z3.And(DS(v, c.out).L(K).b == 0, DS(v, c.out).L(K).i == 0),
                                                    z3.And(DS(v, c.out).L(K).i == 0, DS(v, c.out).L(K).b >= o.next, DS(v, c.out).L(K).b < v.next,
                                                           v.llen(DS(v, c.out).L(K).b) > 0)))
        b_ = z3.Int("b")
        for mp in ("LLen", "LDb", "LDi"):
            def kept(st, mp=mp):
                x = sel(ex.hget(st, mp), b_)
                return FA([b_], IMP(b_ < o.next, x == sel(o.map(mp), b_)), x)
            out.append(Cand("old_lists:" + mp, kept))
        pos = {k: L.pos(k, L.s0.env[k]) for k in islist}
        mod = [k for k in islist if k in L.modenv]
        for a in mod:
            for b in islist:
                if a < b and b in L.modenv:
                    out.append(Cand("pos(%s)=pos(%s)" % (a[-1], b[-1]), lambda st, a=a, b=b: pos[a](st) == pos[b](st)))
            out.append(Cand("n=before(%s)" % a[-1], lambda st, a=a: num(V(ex, st)) == NBEF[K](pos[a](st))))
            for b in islist:
                if b not in mod and not str(L.s0.env[b].i).startswith('arg_') and not z3.is_int_value(L.s0.env[b].i):
                    def off(st, a=a, b=b):
                        return num(V(ex, st)) == NBEF[K](st.env[b].i) + pos[a](st)
                    out.append(Cand("n=before(%s)+%s" % (b[-1], a[-1]), off))
        for a, ty, ln, cond in d["arrs"]:
            def ready(st, a=a, ty=ty, ln=ln, cond=cond):
                v = V(ex, st)
                P = src(K, p_)
                q = v.f(at(rec(v, K, P), k_), "%s.%s" % (rs, a))
                return FA([p_, k_], IMP(z3.And(rng(p_, total(o, c)), rng(k_, nrec(v, K, P)), acond(v, K, P, cond)), live(v, q, alen(v, K, P, ln) * SZ[ty])), q.b)
            out.append(Cand("source:" + a, ready))
        cl = clauses(V(ex, L.s0), o, c, p_)
        for y in range(len(cl)):
            def f(st, y=y):
                v = V(ex, st)
                nm, xs, g, pat = clauses(v, o, c, p_)[y]
                return quant([p_] + xs, rng(p_, num(v)), g, pat if pat is not None else DS(v, c.out).T(K, p_).b)
            out.append(Cand(cl[y][0], f))
        sh = table_shape(V(ex, L.s0), o, K, DS(V(ex, L.s0), c.out).T(K, p_))
        for y in range(len(sh)):
            def f(st, y=y):
                v = V(ex, st)
                nm, xs, g, pat = table_shape(v, o, K, DS(v, c.out).T(K, p_))[y]
                return quant([p_] + xs, rng(p_, num(v)), g, pat)
            out.append(Cand("shape." + sh[y][0], f))
        return out
    hm = lambda c: [(m, c.out.b) for m in LISTF(K)]
    SPECS[name] = Contract(name, ps, pre, post, heapmod=hm, templates=[tmpl],
                           config=dict(own=True, rich=True, paths=False, cand_timeout=20000, noframe0=LISTF(K) + ["F:%s.target_id" % rs], noframe=["LLen", "LDb", "LDi"], strfields=[sf for _, sf in NAMES.values()]))




for K in MK:
    mk_merge(K)
