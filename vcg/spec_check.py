"""Contracts of the conformity checker (oicheck.c): what each check looks for, how it is recorded."""
from dataset import *
from spec_file import cursor_kinds, cond_vars, eqp, first_match, SPECS as FILE
from lib import fmtfn
from sym import strunc, slen

SPECS = {}
R = "oi_check_result."
FLEN = 71
NOT_OIFITS, WARNING = 2, 1
TRUNC = "[List truncated]"


def maxrep(ex):
    return ex.fieldty("oi_check_result", "location").n


def lit(s):
    return slit(s)


def text(fmt, *vals):
    """what a location reads, cut to the size of its buffer"""
    if not vals:
        return strunc(slit(fmt), FLEN)
    vals = [slit(v) if isinstance(v, str) else v for v in vals]
    return strunc(fmtfn(fmt, [v.sort() for v in vals])(*vals), FLEN)


class RES:
    def __init__(self, v, p):
        self.v, self.p = v, p
        self.n = v.f(p, R + "numBreach")
        self.level = v.f(p, R + "level")
        self.desc = v.f(p, R + "description")
        self.chunk = v.f(p, R + "chunk")
        self.lb, self.li = v.f(p, R + "location")

    def loc(self, q):
        return Ptr(sel(self.lb, q), sel(self.li, q))

    def str(self, p):
        return sel(self.v.map("S"), p.b)


def resobj(v, p):
    return z3.And(obj(v, p, "oi_check_result"), p.b > 0, tag(p.b) == 0)


def chunk_ok(v, r):
    return z3.And(live(v, r.chunk, 1), r.chunk.b < v.next)


# ------------------------------------------------------------------ the result structure
def init_post(c):
    r = RES(c.new, c.res)
    return [("level", r.level == 0), ("description", r.desc.b == 0), ("number", r.n == 0), ("chunk", z3.And(r.chunk.b >= c.old.next, chunk_ok(c.new, r))),
            ("locations", FA([k_], IMP(rng(k_, maxrep(c.ex)), r.loc(k_).b == 0), r.loc(k_).b))]


def init_t(c, L):
    def fn(w, k):
        x = RES(w, c.res).loc(k)
        return x.b == 0, x.b
    return range_cands(L, "null", fn)


SPECS["init_check_result"] = Contract("init_check_result", ["res"], lambda c: [("result", resobj(c.old, c.res))], init_post,
                                      mod=lambda c: [("oi_check_result", c.res)], templates=[init_t])


def set_pre(c):
    r = RES(c.old, c.res)
    d = c.ex.str_at(c.desc, c.old.st)
    return [("result", resobj(c.old, c.res)), ("chunk", chunk_ok(c.old, r)), ("number", r.n >= 0), ("level", z3.And(c.level > 0, c.level <= 3)),
            ("same_rule", z3.Or(r.desc.b == 0, z3.And(r.desc.i == 0, r.desc.b > 0, r.desc.b < c.old.next, tag(r.desc.b) == 0, r.str(r.desc) == d)))]


def set_post(c):
    M = maxrep(c.ex)
    o, r = RES(c.old, c.res), RES(c.new, c.res)
    d = c.ex.str_at(c.desc, c.old.st)
    l = c.ex.str_at(c.loc, c.old.st)
    new = lambda p: z3.And(p.i == 0, p.b > 0, tag(p.b) == 0, p.b >= c.old.next, p.b < c.new.next)
    a = r.loc(o.n)
    last = r.loc(z3.IntVal(M - 1))
    return [("level", r.level == z3.If(c.level > o.level, c.level, o.level)), ("number", r.n == o.n + 1),
            ("description", z3.And(r.desc.i == 0, r.desc.b > 0, r.desc.b < c.new.next, tag(r.desc.b) == 0, r.str(r.desc) == d)),
            ("recorded", IMP(o.n < M - 1, z3.And(new(a), r.str(a) == l))),
            ("truncated", IMP(o.n == M - 1, z3.And(new(last), r.str(last) == slit(TRUNC)))),
            ("kept", FA([k_], IMP(z3.And(rng(k_, M), k_ != o.n), eqp(r.loc(k_), o.loc(k_))), r.loc(k_).b)),
            ("chunk", z3.And(eqp(r.chunk, o.chunk), chunk_ok(c.new, r)))]


SPECS["set_result"] = Contract("set_result", ["res", "level", "desc", "loc"], set_pre, set_post,
                               mod=lambda c: [("oi_check_result", c.res)], argkinds=dict(desc="str", loc="str"), helper=True)


def rep_ok(v, p, M):
    """what the checks leave behind: every location that is reported exists"""
    r = RES(v, p)
    return [("level", z3.And(0 <= r.level, r.level <= 3)), ("number", r.n >= 0), ("none", (r.level == 0) == (r.n == 0)),
            ("description", IMP(r.n > 0, z3.And(r.desc.b > 0, r.desc.b < v.next, tag(r.desc.b) == 0, r.desc.i == 0))),
            ("locations", FA([k_], IMP(z3.And(rng(k_, M), k_ < r.n), z3.And(r.loc(k_).b > 0, r.loc(k_).b < v.next, tag(r.loc(k_).b) == 0, r.loc(k_).i == 0)), r.loc(k_).b))]


SPECS["free_check_result"] = Contract(
    "free_check_result", ["res"], lambda c: [("result", resobj(c.old, c.res)), ("chunk", live(c.old, RES(c.old, c.res).chunk, 1))],
    lambda c: [("released", c.new.len(RES(c.old, c.res).chunk.b) < 0)], heapmod=lambda c: [("Len", RES(c.old, c.res).chunk.b)])


# ------------------------------------------------------------------ the checks
class Rule:
    """one kind of table: inc(d, t, k, j) lists (breach condition, level, location) at a site of depth 1 (table), 2 (record) or
    3 (channel or station, J of them).  cond: the tables that are looked at record by record; others: sites of the other tables"""

    def __init__(self, K, depth, inc, cond=None, others=None, J=None, start=0):
        self.K, self.depth, self.inc, self.cond, self.others, self.J, self.start = K, depth, inc, cond, others, J, start


def incsum(l):
    return z3.Sum([z3.If(g, 1, 0) for g, _, _ in l]) if len(l) > 1 else z3.If(l[0][0], 1, 0)


class Check:
    def __init__(self, name, rules, glob=None, guard=None, kinds=(), levels=(NOT_OIFITS,), extra=None, pre=None):
        self.name, self.rules, self.glob, self.guard = name, rules, glob or (lambda c: []), guard or (lambda c: TRUE)
        self.kinds, self.levels = list(kinds), levels
        self.P = {}
        self.B = {l: z3.Function("breach%d_%s" % (l, name), B) for l in levels}
        self.ISLOC = z3.Function("offends_" + name, STR, B)
        self.arrays = any(r.depth == 3 for r in rules)
        self.extra = pre or (lambda c: [])
        self.prefix = {l: {} for l in levels}

    def p(self, r, level):
        key = (r.K, level)
        if key not in self.P:
            self.P[key] = z3.Function("breaches%d_%s_%s" % (level, self.name, r.K), I, I, I, I)
        return self.P[key]

    def size(self, d, r, t):
        return d.fld(r.K, t, KINDS[r.K]["n"])

    def jn(self, d, r, t):
        return r.J(d, t) if r.J else None

    def defs(self, c, r, level):
        d, P = DS(c.old, c.p), self.p(r, level)
        on = self.guard(c)
        S = lambda l: z3.Sum([z3.If(z3.And(on, g), 1, 0) for g, lv, _ in l if lv >= level] or [ZERO])
        g = rng(t_, d.n(r.K))
        out = [("base", P(0, 0, 0) == 0)]
        T = d.T(r.K, t_)
        if r.depth == 1:
            return out + [("table", FA([t_], IMP(g, P(t_ + 1, 0, 0) == P(t_, 0, 0) + S(r.inc(d, t_, None, None))), T.b))]
        n = self.size(d, r, t_)
        step = P(t_, n, 0)
        if r.cond:
            step = z3.If(r.cond(d, t_), step, P(t_, 0, 0) + S(r.others(d, t_) if r.others else []))
        out.append(("table", FA([t_], IMP(g, P(t_ + 1, 0, 0) == step), T.b)))
        q = P(t_, k_, 0)
        if r.depth == 2:
            out.append(("record", FA([t_, k_], IMP(z3.And(g, r.start <= k_, k_ < n), P(t_, k_ + 1, 0) == q + S(r.inc(d, t_, k_, None))), q)))
            if r.start:
                out.append(("first", FA([t_], IMP(g, P(t_, r.start, 0) == P(t_, 0, 0)), T.b)))
            return out
        J = self.jn(d, r, t_)
        qj = P(t_, k_, j_)
        out.append(("record", FA([t_, k_], IMP(z3.And(g, rng(k_, n)), P(t_, k_ + 1, 0) == P(t_, k_, J)), q)))
        out.append(("site", FA([t_, k_, j_], IMP(z3.And(g, rng(k_, n), rng(j_, J)), P(t_, k_, j_ + 1) == qj + S(r.inc(d, t_, k_, j_))), qj)))
        return out

    def insts(self, c, r, level):
        defs = self.defs(c, r, level)

        def fn(t, k, j):
            out = []
            for nm, f in defs:
                if nm == "base":
                    continue
                for dt in (0, -1):
                    for dk in ((0, -1) if f.num_vars() > 1 and nm != "site" else (0,)):
                        for dj in ((0, -1) if nm == "site" else (0,)):
                            vals = (t + dt if nm in ("table", "first") else t, k + dk, j + dj)[:f.num_vars()]
                            if nm not in ("table", "first") and dt:
                                continue
                            out.append(z3.simplify(z3.substitute_vars(f.body(), *reversed(vals)), arith_lhs=False))
            return out
        return fn

    def sites(self, c):
        """every breach there is: (vars, guard, condition, level, location, pattern)"""
        d = DS(c.old, c.p)
        on = self.guard(c)
        for g, lv, loc in self.glob(c):
            yield [], TRUE, g, lv, loc, None
        for r in self.rules:
            g = z3.And(on, rng(t_, d.n(r.K)))
            T = d.T(r.K, t_)
            if r.others:
                for b, lv, loc in r.others(d, t_):
                    yield [t_], z3.And(g, z3.Not(r.cond(d, t_))), b, lv, loc, T.b
            if r.cond:
                g = z3.And(g, r.cond(d, t_))
            if r.depth == 1:
                for b, lv, loc in r.inc(d, t_, None, None):
                    yield [t_], g, b, lv, loc, T.b
            elif r.depth == 2:
                g = z3.And(g, r.start <= k_, k_ < self.size(d, r, t_))
                for b, lv, loc in r.inc(d, t_, k_, None):
                    yield [t_, k_], g, b, lv, loc, None
            else:
                g = z3.And(g, rng(k_, self.size(d, r, t_)), rng(j_, self.jn(d, r, t_)))
                for b, lv, loc in r.inc(d, t_, k_, j_):
                    yield [t_, k_, j_], g, b, lv, loc, None

    def offends(self, c):
        """which texts name an offending place"""
        out = []
        for vs, g, b, lv, loc, pat in self.sites(c):
            f = self.ISLOC(loc)
            out.append(FA(vs, IMP(z3.And(g, b), f), pat if pat is not None else loc) if vs else IMP(b, f))
        return out

    def pre(self, c):
        d = DS(c.old, c.p)
        if self.kinds:
            out = d.wf_lists(self.kinds, arrays=self.arrays)
        else:
            out = [("dataset", z3.And(obj(c.old, c.p, "oi_fits"), c.p.b > 0, tag(c.p.b) == 0))]
        out.append(("result", z3.And(resobj(c.old, c.res), c.res.b != c.p.b)))
        out += self.extra(c)
        for r in self.rules:
            for lv in self.levels:
                out += [("def.%s%d.%s" % (r.K, lv, n), f) for n, f in self.defs(c, r, lv)]
        out += [("def.offends", f) for f in self.offends(c)]
        return out

    def total(self, c, level):
        d = DS(c.old, c.p)
        return z3.Sum([z3.If(g, 1, 0) for g, lv, _ in self.glob(c) if lv >= level] + [ZERO] +
                      [self.p(r, level)(d.n(r.K), 0, 0) for r in self.rules])

    def post(self, c):
        M = maxrep(c.ex)
        r = RES(c.new, c.res)
        lo = min(self.levels)
        n = self.total(c, lo)
        ret = c.ret
        lev = z3.IntVal(0)
        for l in sorted(self.levels):
            lev = z3.If(self.total(c, l) > 0, l, lev)
        loc = r.loc(k_)
        return [("level", r.level == lev), ("returned", ret == r.level), ("number", r.n == n),
                ("description", (r.n == 0) == (r.desc.b == 0)),
                ("locations", FA([k_], IMP(z3.And(0 <= k_, k_ < M - 1, k_ < r.n), z3.And(loc.b > 0, self.ISLOC(r.str(loc)))), loc.b)),
                ("truncated", IMP(r.n >= M, z3.And(r.loc(z3.IntVal(M - 1)).b > 0, r.str(r.loc(z3.IntVal(M - 1))) == slit(TRUNC)))),
                ("unused", FA([k_], IMP(z3.And(r.n <= k_, k_ < M), loc.b == 0), loc.b)),
                ("chunk", chunk_ok(c.new, r))]

    # -------------------------------------------------------------- invariants
    def cands(self, c, L):
        ex, s0, d = L.ex, L.s0, DS(c.old, c.p)
        M = maxrep(ex)
        out = []
        res = lambda st: RES(V(ex, st), c.res)
        out.append(Cand("res.chunk", lambda st: chunk_ok(V(ex, st), res(st))))
        out.append(Cand("res.number", lambda st: res(st).n >= 0))
        if len(self.levels) == 1:
            out.append(Cand("res.level", lambda st: res(st).level == z3.If(res(st).n > 0, self.levels[0], 0)))
        else:
            out.append(Cand("res.level", lambda st: z3.And(res(st).level >= 0, (res(st).level == 0) == (res(st).n == 0))))
            for l in self.levels:
                out.append(Cand("res.level<=%d" % l, lambda st, l=l: res(st).level <= l))

        def desc(st, s=None):
            r = res(st)
            return z3.Or(z3.And(r.desc.b == 0, r.n == 0),
                         z3.And(r.n > 0, r.desc.b > 0, r.desc.i == 0, r.desc.b < st.heap["NEXT"], tag(r.desc.b) == 0, r.str(r.desc) == s) if s is not None else TRUE)
        for k, v in sorted(s0.env.items(), key=str):
            if isinstance(v, z3.ExprRef) and v.sort() == STR and k not in L.modenv:
                out.append(Cand("res.desc=" + str(k[-1]), lambda st, v=v: desc(st, v)))

        def locs(st):
            r = res(st)
            l = r.loc(k_)
            return FA([k_], IMP(z3.And(0 <= k_, k_ < M - 1, k_ < r.n), z3.And(l.b > 0, l.b < st.heap["NEXT"], tag(l.b) == 0, self.ISLOC(r.str(l)))), l.b)
        out.append(Cand("res.locs", locs))

        def last(st):
            r = res(st)
            l = r.loc(z3.IntVal(M - 1))
            return IMP(r.n >= M, z3.And(l.b > 0, l.b < st.heap["NEXT"], tag(l.b) == 0, r.str(l) == slit(TRUNC)))
        out.append(Cand("res.last", last))

        def unused(st):
            r = res(st)
            l = r.loc(k_)
            return FA([k_], IMP(z3.And(r.n <= k_, k_ < M), l.b == 0), l.b)
        out.append(Cand("res.unused", unused))
        # how many so far: the cursor and the counters of the loops around give the place reached
        ints = [k for k, v in sorted(s0.env.items(), key=str) if isinstance(v, z3.ExprRef) and v.sort() == I and k[0] not in ("g", "arg")]
        mem = c.defs.setdefault("loopvars", set())
        used = cond_vars(L.cond)
        mem |= {k for k in ints if k in L.modenv and k[1] in used}
        lv = [k for k in ints if k in mem]
        kinds = []
        for r in self.rules:
            if r.K not in kinds:
                kinds.append(r.K)
        for lk, ks in cursor_kinds(c, L, kinds):
            for K in ks:
                r = [x for x in self.rules if x.K == K][0]

                def pos(st, lk=lk, K=K):
                    p = ex.to_ptr(st.env[lk])
                    return z3.If(p.b == 0, d.n(K), p.i)
                for level in self.levels:
                    P = self.p(r, level)
                    inst = self.insts(c, r, level)

                    def hint(st, pos=pos, inst=inst, lv=lv):
                        t = pos(st)
                        o = inst(t, ZERO, ZERO)
                        for a in lv:
                            o += inst(t, st.env[a], ZERO)
                            for b in lv:
                                if a != b:
                                    o += inst(t, st.env[a], st.env[b])
                        return o
                    L.extra_hints.append(hint)
                    for a in lv + [None]:
                        for b in (lv if a is not None and r.depth == 3 else []) + [None]:
                            if a is not None and (a == b or r.depth == 1):
                                continue
                            if lk not in L.modenv and a not in L.modenv and b not in L.modenv:
                                continue
                            co = lambda st, a=a, b=b, pos=pos, P=P: P(pos(st), ZERO if a is None else st.env[a], ZERO if b is None else st.env[b])
                            nm = "%s%d(%s,%s)" % (K, level, a and a[-1], b and b[-1])
                            if level == min(self.levels):
                                out.append(Cand("count_" + nm, lambda st, co=co: res(st).n - res(s0).n == co(st) - co(s0)))
                            else:
                                out.append(Cand("worst_" + nm, lambda st, co=co, level=level: (res(st).level >= level) ==
                                                z3.Or(res(s0).level >= level, co(st) > co(s0))))
                                out.append(Cand("mono_" + nm, lambda st, co=co: co(st) >= co(s0)))
                out.append(Cand("in_%s" % K, lambda st, lk=lk, K=K: z3.Or(st.env[lk].b == 0, st.env[lk].b == d.L(K).b)))
        return out

    def register(self):
        SPECS[self.name] = Contract(self.name, ["p", "res"], self.pre, self.post, mod=lambda c: [("oi_check_result", c.res)],
                                    templates=[self.cands])


def two(c):
    return c.old.f(DS(c.old, c.p).header(), "oi_header.content") == slit("OIFITS2")


NAME = dict(array="OI_ARRAY", wavelength="OI_WAVELENGTH", vis="OI_VIS", vis2="OI_VIS2", t3="OI_T3", flux="OI_FLUX", corr="OI_CORR", inspol="OI_INSPOL")
BAD = NOT_OIFITS
NUM = lambda c, K: c.old.f(c.p, "oi_fits." + NUMS[K])


# tables present and their revisions
def tables_glob(c):
    v2 = two(c)
    z = lambda K: NUM(c, K) == 0
    need = "No %s table - at least one %srequired"
    rv = c.old.f(DS(c.old, c.p).targets(), "oi_target.revision")
    return [(z3.And(v2, z("array")), BAD, text("No OI_ARRAY table - at least one required")),
            (z("wavelength"), BAD, text("No OI_WAVELENGTH table - at least one required")),
            (z3.And(v2, z("vis"), z("vis2"), z("t3"), z("flux")), BAD, text("No data table - at least one OI_VIS/VIS2/T3/FLUX required")),
            (z3.And(z3.Not(v2), z("vis"), z("vis2"), z("t3")), BAD, text("No data table - at least one OI_VIS/VIS2/T3 required")),
            (z3.If(v2, rv != 2, rv != 1), BAD, slit("OI_TARGET"))]


def rev_rule(K, v1, v2):
    def inc(d, t, k, j):
        rv = d.fld(K, t, "revision")
        is2 = d.v.f(d.header(), "oi_header.content") == slit("OIFITS2")
        bad = z3.If(is2, rv != v2, rv != v1 if v1 else FALSE)
        return [(bad, BAD, text("%s #%d", NAME[K], t + 1))]
    return Rule(K, 1, inc)


REVS = dict(array=(1, 2), wavelength=(1, 2), vis=(1, 2), vis2=(1, 2), t3=(1, 2), flux=(None, 1), corr=(None, 1), inspol=(None, 1))
Check("check_tables", [rev_rule(K, *REVS[K]) for K in REVS], tables_glob, kinds=list(REVS)).register()

# header
HK = [("origin", "ORIGIN"), ("date", "DATE"), ("date_obs", "DATE-OBS"), ("content", "CONTENT"), ("telescop", "TELESCOP"), ("instrume", "INSTRUME"),
      ("observer", "OBSERVER"), ("insmode", "INSMODE"), ("object", "OBJECT")]


def header_glob(c):
    h = DS(c.old, c.p).header()
    v2 = two(c)
    return [(z3.And(v2, slen(c.old.f(h, "oi_header." + f)) == 0), BAD, text("%s value missing from primary header" % K)) for f, K in HK]


Check("check_header", [], header_glob).register()


# keywords
def oneof(x, *vals):
    return z3.Or([x == slit(v) for v in vals])


def kw_array(d, t, k, j):
    x = d.fld("array", t, "frame")
    return [(z3.Not(oneof(x, "GEOCENTRIC", "SKY")), BAD, text("OI_ARRAY #%d FRAME='%s' ('GEOCENTRIC'/'SKY')", t + 1, x))]


def kw_vis(d, t, k, j):
    a, p = d.fld("vis", t, "amptyp"), d.fld("vis", t, "phityp")
    v2 = d.v.f(d.header(), "oi_header.content") == slit("OIFITS2")
    return [(z3.And(v2, slen(a) > 0, z3.Not(oneof(a, "absolute", "differential", "correlated flux"))), BAD,
             text("OI_VIS #%d AMPTYP='%s' ('absolute'/'differential'/'correlated flux')", t + 1, a)),
            (z3.And(v2, slen(p) > 0, z3.Not(oneof(p, "absolute", "differential"))), BAD,
             text("OI_VIS #%d PHITYP='%s' ('absolute'/'differential')", t + 1, p))]


def kw_flux(d, t, k, j):
    cs, f = d.fld("flux", t, "calstat"), d.fld("flux", t, "fovtype")
    return [(z3.And(cs != ord("C"), cs != ord("U")), BAD, text("OI_FLUX #%d CALSTAT='%c' ('C'/'U')", t + 1, cs)),
            (z3.And(slen(f) > 0, z3.Not(oneof(f, "FWHM", "RADIUS"))), BAD, text("OI_FLUX #%d FOVTYPE='%s' ('FWHM', 'RADIUS')", t + 1, f))]


Check("check_keywords", [Rule("array", 1, kw_array), Rule("vis", 1, kw_vis), Rule("flux", 1, kw_flux)], kinds=["array", "vis", "flux"]).register()


# VISREFMAP
def vrm(d, t, k, j):
    a, p, u = d.fld("vis", t, "amptyp"), d.fld("vis", t, "phityp"), d.fld("vis", t, "usevisrefmap")
    diff = z3.Or(a == slit("differential"), p == slit("differential"))
    return [(z3.And(diff, u == 0), BAD, text("OI_VIS #%d AMPTYP='%s' PHITYP='%s' has no VISREFMAP", t + 1, a, p)),
            (z3.And(z3.Not(diff), u != 0), WARNING, text("OI_VIS #%d AMPTYP='%s' PHITYP='%s' has VISREFMAP", t + 1, a, p))]


Check("check_visrefmap", [Rule("vis", 1, vrm)], kinds=["vis"], levels=(WARNING, BAD)).register()


# ARRNAME
def arr_rule(K):
    def inc(d, t, k, j):
        b = slen(d.fld(K, t, "arrname")) == 0
        if K == "flux":
            b = z3.And(d.fld(K, t, "calstat") == ord("U"), b)
        return [(b, BAD, text(NAME[K] + " #%d", t + 1))]
    return Rule(K, 1, inc)


AK = ["inspol", "vis", "vis2", "t3", "flux"]
Check("check_arrname", [arr_rule(K) for K in AK], guard=two, kinds=AK).register()


# CORRNAME
def corr_rule(K):
    def inc(d, t, k, j):
        x = d.fld(K, t, "corrname")
        return [(z3.And(slen(x) > 0, lookup(d.v, d.D, "corrHash", x).b == 0), BAD, text(NAME[K] + " #%d", t + 1))]
    return Rule(K, 1, inc)


Check("check_corr_present", [corr_rule(K) for K in DATAKINDS], kinds=DATAKINDS).register()


# TIME
def time_rule(K):
    def inc(d, t, k, j):
        return [(flt(flit(1e-10), fop("ffabs", 1)(d.rfld(K, t, k, "time"))), WARNING, text(NAME[K] + " #%d record %d", t + 1, k + 1))]
    return Rule(K, 2, inc)


Check("check_time", [time_rule(K) for K in ("vis", "vis2", "t3")], guard=two, kinds=["vis", "vis2", "t3"], levels=(WARNING,)).register()


# error bars
def err_rule(K, cols):
    def inc(d, t, k, j):
        v = d.v
        fl = v.h("char", d.rfld(K, t, k, "flag"), j)
        neg = z3.Or([flt(v.h("double", d.rfld(K, t, k, x), j), flit(0.0)) for x in cols])
        return [(z3.And(fl == 0, neg), BAD, text(NAME[K] + " #%d record %d channel %d", t + 1, k + 1, j + 1))]
    return Rule(K, 3, inc, J=lambda d, t: d.fld(K, t, "nwave"))


Check("check_flagging", [err_rule("vis", ["visamperr", "visphierr"]), err_rule("vis2", ["vis2err"]), err_rule("t3", ["t3amperr", "t3phierr"])],
      kinds=["vis", "vis2", "t3"]).register()


def t3amp(d, t, k, j):
    v = d.v
    fl = v.h("char", d.rfld("t3", t, k, "flag"), j)
    a, e = v.h("double", d.rfld("t3", t, k, "t3amp"), j), v.h("double", d.rfld("t3", t, k, "t3amperr"), j)
    return [(z3.And(fl == 0, flt(fop("fmul_double")(flit(1.0), e), fop("fsub_double")(a, flit(1.0)))), BAD,
             text("OI_T3 #%d record %d channel %d", t + 1, k + 1, j + 1))]


Check("check_t3amp", [Rule("t3", 3, t3amp, J=lambda d, t: d.fld("t3", t, "nwave"))], kinds=["t3"]).register()


# flux columns
def flux_inc(d, t, k, j):
    cs, arr, fov = d.fld("flux", t, "calstat"), d.fld("flux", t, "arrname"), d.fld("flux", t, "fovtype")
    s = d.rfld("flux", t, ZERO, "sta_index")
    C, U = cs == ord("C"), cs == ord("U")
    f = lambda m, *a: text("OI_FLUX #%d " + m, t + 1, *a)
    return [(z3.And(C, slen(arr) > 0), BAD, f("Calibrated but ARRNAME='%s'", arr)), (z3.And(C, s != -1), BAD, f("Calibrated but STA_INDEX present")),
            (z3.And(U, slen(arr) == 0), BAD, f("Uncalibrated but ARRNAME missing")), (z3.And(U, s == -1), BAD, f("Uncalibrated but STA_INDEX missing")),
            (z3.And(U, slen(fov) > 0), BAD, f("Uncalibrated but FOVTYPE present"))]


Check("check_flux", [Rule("flux", 1, flux_inc)], kinds=["flux"]).register()
