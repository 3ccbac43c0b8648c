"""Contracts of files_min_mjd and merge_oi_header: the merged primary header."""
from spec_merge3 import *
from spec_merge3 import SPECS as _S
from lib import scnfn, scvfn, fmtfn, strunc
import spec_date

SPECS = dict(_S)
FMT = "%4ld-%2ld-%2ld"
REQ = ["origin", "telescop", "instrume", "observer", "insmode", "object"]
OPT = ["referenc", "author", "prog_id", "procsoft", "obstech"]
YMD = [z3.Function("calendar_" + x, I, I) for x in ("year", "month", "day")]
EMPTYS = slit("")

# callee contract used here: the date of a day number is a function of the number (C15 proves which one)
SPECS["mjd2date"] = Contract(
    "mjd2date", ["mjd", "year", "month", "day"], spec_date.SPECS["mjd2date"].pre,
    lambda c: [("ymd", z3.And(*[c.new.deref(p, "long") == f(c.mjd) for p, f in zip((c.year, c.month, c.day), YMD)]))],
    argkinds=dict(year="out", month="out", day="out"))
SPECS["date2mjd"] = spec_date.SPECS["date2mjd"]


def hdr(v, D):
    return Ptr(emb("oi_fits.header", D.b, D.i))


def hf(v, D, f):
    return v.f(hdr(v, D), "oi_header." + f)


def parsed(v, D):
    """day number of the DATE-OBS of a dataset, when it has one"""
    s = hf(v, D, "date_obs")
    y, m, d = (scvfn(FMT, k)(s) for k in range(3))
    ok = scnfn(FMT)(s) == 3
    valid = z3.And(1901 <= y, y <= 2099, 1 <= m, m <= 12, 1 <= d, d <= spec_date.dim(y, m))
    return ok, valid, spec_date.days(y, m, d)


def in_pre(v, l, out=None):
    n = nin(v, l)
    D = inp(v, l, m_)
    ok, valid, day = parsed(v, D)
    g = z3.And(obj(v, D, "oi_fits"), D.b > 0, D.b < v.next, tag(D.b) == 0)
    if out is not None:
        g = z3.And(g, D.b != out.b)
    return [("inputs", z3.And(l.i == 0, l.b >= 0, l.b < v.next, z3.Or(l.b == 0, v.llen(l.b) > 0))),
            ("input", FA([m_], IMP(rng(m_, n), g), D.b)),
            ("dates", FA([m_], IMP(z3.And(rng(m_, n), ok), valid), D.b))]


def earliest(v, l, r, lim):
    D = inp(v, l, m_)
    ok, valid, day = parsed(v, D)
    return [("lower", FA([m_], IMP(z3.And(rng(m_, lim), ok), r <= day), D.b)),
            ("attained", z3.Or(r == 100000, z3.Exists([m_], z3.And(rng(m_, lim), ok, r == day)))),
            ("default", r <= 100000)]


def mm_tmpl(c, L):
    ex = L.ex
    out = []
    for nm, k, v0 in L.lists:
        if v0.b.eq(c.list.b) and L.is_list(k):
            pos = L.pos(k, v0)
            for n2, g in L.ints:
                for y in range(3):
                    out.append(Cand("earliest%d(%s)" % (y, n2), lambda st, g=g, y=y: earliest(c.old, c.list, g(st), pos(st))[y][1]))
    return out


SPECS["files_min_mjd"] = Contract(
    "files_min_mjd", ["list"], lambda c: in_pre(c.old, c.list), lambda c: [("value:" + a, g) for a, g in earliest(c.old, c.list, c.ret, nin(c.old, c.list))],
    templates=[mm_tmpl], helper=True, config=dict(paths=True))


def h_pre(c):
    v = c.old
    n = nin(v, c.inl)
    D = inp(v, c.inl, m_)
    out = in_pre(v, c.inl, c.out)
    Dw = inp(v, c.inl, W_)
    out.append(("some_date", z3.And(rng(W_, n), parsed(v, Dw)[0], N0_ == hf(v, Dw, "date_obs"))))
    out.append(("date_range", FA([m_], IMP(z3.And(rng(m_, n), parsed(v, D)[0]), z3.And(parsed(v, D)[2] >= spec_date.MJD1901,
                                                                                    parsed(v, D)[2] < spec_date.MJD1901 + 365 * 199 + 49)), D.b)))
    out.append(("out", z3.And(obj(v, c.out, "oi_fits"), c.out.b > 0, c.out.b < v.next, tag(c.out.b) == 0, c.out.i == 0)))
    out.append(("out_empty", z3.And(*[hf(v, c.out, f) == EMPTYS for f in REQ + OPT])))
    for f in REQ + OPT:
        x = hf(v, D, f)
        out.append(("fits." + f, FA([m_], IMP(rng(m_, n), slen(x) < FLEN), x)))
    return out


def merged(v, o, c, f):
    """value of one keyword in the merged header"""
    n = nin(o, c.inl)
    r = hf(v, c.out, f)
    x = lambda m: hf(o, inp(o, c.inl, m), f)
    some = z3.Exists([m_], z3.And(rng(m_, n), x(m_) != EMPTYS))
    none = r == (slit("UNKNOWN") if f in REQ else EMPTYS)
    return [("none", z3.Or(none, some)),
            ("common", FA([m_], IMP(z3.And(rng(m_, n), x(m_) != EMPTYS), z3.Or(r == x(m_), r == slit("MULTIPLE"))), x(m_))),
            ("multiple", z3.Or(r != slit("MULTIPLE"), z3.Exists([m_], z3.And(rng(m_, n), x(m_) == r)),
                               z3.Exists([m_, q_], z3.And(rng(m_, n), rng(q_, n), x(m_) != EMPTYS, x(q_) != EMPTYS, x(m_) != x(q_)))))]


def h_post(c):
    v, o = c.new, c.old
    day = z3.Int("day")
    f = fmtfn("%4ld-%02ld-%02ld", [I, I, I])
    out = [("value:content", hf(v, c.out, "content") == slit("OIFITS2"))]
    out.append(("value:date_obs", z3.Exists([day], z3.And(hf(v, c.out, "date_obs") == strunc(f(*[g(day) for g in YMD]), z3.IntVal(FLEN)),
                                                         *[g for _, g in earliest(o, c.inl, day, nin(o, c.inl))], day != 100000))))
    for k in REQ + OPT:
        out += [("value:%s.%s" % (k, a), g) for a, g in merged(v, o, c, k)]
    return out


def h_tmpl(c, L):
    ex, o = L.ex, c.old
    out = []
    cur = [(k, L.pos(k, v0)) for nm, k, v0 in L.lists if v0.b.eq(c.inl.b) and L.is_list(k)]
    fields = [f for f in REQ + OPT if "F:oi_header." + f in L.modheap]
    for k, pos in cur:
        for nm, g in L.ints:
            out.append(Cand("single(%s)" % nm, lambda st, g=g: z3.And(0 <= g(st), g(st) <= 1)))
            for f in fields:
                x = lambda m, f=f: hf(o, inp(o, c.inl, m), f)
                cur_ = lambda st, f=f: hf(V(ex, st), c.out, f)
                out.append(Cand("same:%s(%s)" % (f, nm), lambda st, x=x, cur_=cur_: FA(
                    [m_], IMP(rng(m_, pos(st)), z3.Or(x(m_) == EMPTYS, x(m_) == cur_(st))), x(m_))))
                out.append(Cand("none:%s(%s)" % (f, nm), lambda st, g=g, x=x, cur_=cur_: z3.And(
                    (g(st) == 0) == (cur_(st) == EMPTYS))))
                out.append(Cand("source:%s(%s)" % (f, nm), lambda st, g=g, x=x, cur_=cur_: z3.Or(g(st) == 0, z3.Exists(
                    [m_], z3.And(rng(m_, nin(o, c.inl)), x(m_) == cur_(st), x(m_) != EMPTYS)))))
    return out


SPECS["merge_oi_header"] = Contract("merge_oi_header", ["inl", "out"], h_pre, h_post, mod=lambda c: [("oi_header", hdr(c.old, c.out))], templates=[h_tmpl],
                                    config=dict(paths=True, noframe0=["F:oi_header." + f for f in REQ + OPT]))
