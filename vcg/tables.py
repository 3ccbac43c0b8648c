"""Shape of the OIFITS tables, read from the current headers, and generic
predicates over them.  Only the *meaning* (which length each array has, which
optional columns depend on which switch) is written here."""
import z3
from sym import *
from contract import *
from cast import sizeof

# kind -> struct, record struct, record count, per-record arrays (field, element type, length, condition)
KINDS = {
    "array": dict(s="oi_array", r="element", n="nelement", ptr="elem", arrs=[]),
    "target": dict(s="oi_target", r="target", n="ntarget", ptr="targ", arrs=[]),
    "wavelength": dict(s="oi_wavelength", r=None, n=None, ptr=None,
                       tarrs=[("eff_wave", "float", "nwave"), ("eff_band", "float", "nwave")]),
    "corr": dict(s="oi_corr", r=None, n=None, ptr=None,
                 tarrs=[("iindx", "int", "ncorr"), ("jindx", "int", "ncorr"), ("corr", "double", "ncorr")]),
    "inspol": dict(s="oi_inspol", r="oi_inspol_record", n="numrec", ptr="record",
                   arrs=[("jxx", "complex float", "nwave", None), ("jyy", "complex float", "nwave", None),
                         ("jxy", "complex float", "nwave", None), ("jyx", "complex float", "nwave", None)]),
    "vis": dict(s="oi_vis", r="oi_vis_record", n="numrec", ptr="record",
                arrs=[("visamp", "double", "nwave", None), ("visamperr", "double", "nwave", None),
                      ("visphi", "double", "nwave", None), ("visphierr", "double", "nwave", None),
                      ("flag", "char", "nwave", None), ("visrefmap", "char", "nwave2", "usevisrefmap"),
                      ("rvis", "double", "nwave", "usecomplex"), ("rviserr", "double", "nwave", "usecomplex"),
                      ("ivis", "double", "nwave", "usecomplex"), ("iviserr", "double", "nwave", "usecomplex")]),
    "vis2": dict(s="oi_vis2", r="oi_vis2_record", n="numrec", ptr="record",
                 arrs=[("vis2data", "double", "nwave", None), ("vis2err", "double", "nwave", None),
                       ("flag", "char", "nwave", None)]),
    "t3": dict(s="oi_t3", r="oi_t3_record", n="numrec", ptr="record",
               arrs=[("t3amp", "double", "nwave", None), ("t3amperr", "double", "nwave", None),
                     ("t3phi", "double", "nwave", None), ("t3phierr", "double", "nwave", None),
                     ("flag", "char", "nwave", None)]),
    "flux": dict(s="oi_flux", r="oi_flux_record", n="numrec", ptr="record",
                 arrs=[("fluxdata", "double", "nwave", None), ("fluxerr", "double", "nwave", None),
                       ("flag", "char", "nwave", None)]),
}
DATAKINDS = ["vis", "vis2", "t3", "flux"]
SZ = {"double": 8, "float": 4, "int": 4, "char": 1, "complex float": 8}
k_ = z3.Int("k")
j_ = z3.Int("j")


def IMP(a, b):
    return z3.Implies(a, b)


def AND(*l):
    return z3.And(*l) if len(l) != 1 else l[0]


def rng(k, n):
    return z3.And(0 <= k, k < n)


def alen(v, K, p, what):
    """array length in elements"""
    n = v.f(p, KINDS[K]["s"] + ".nwave") if what in ("nwave", "nwave2") else v.f(p, KINDS[K]["s"] + "." + what)
    return MUL(n, n) if what == "nwave2" else n


def acond(v, K, p, cond):
    return TRUE if cond is None else v.f(p, KINDS[K]["s"] + "." + cond) != 0


def rec(v, K, p):
    """Ptr to record array"""
    return v.f(p, "%s.%s" % (KINDS[K]["s"], KINDS[K]["ptr"]))


def nrec(v, K, p):
    return v.f(p, "%s.%s" % (KINDS[K]["s"], KINDS[K]["n"]))


def at(p, k):
    return Ptr(p.b, k)


def ssize(ex, s):
    return sizeof(ex.tu, Ty("struct", s))


def live(v, p, nbytes):
    """p is the start of a live block of at least nbytes bytes"""
    return z3.And(p.b > 0, p.i == 0, tag(p.b) == 0, p.b < v.next, v.len(p.b) >= nbytes)


def obj(v, p, s):
    """p points to an object of struct type s"""
    return z3.And(p.b != 0, p.i == 0, z3.Or(tag(p.b) != 0, z3.And(p.b > 0, v.len(p.b) >= ssize(v.ex, s))))


def wf(v, K, p, positive=True, own=False):
    """well-formed table of kind K at p: list of (name, formula)"""
    d = KINDS[K]
    ex = v.ex
    out = [("%s.object" % K, obj(v, p, d["s"]))]
    if d["r"]:
        n = nrec(v, K, p)
        r = rec(v, K, p)
        out.append(("%s.count" % K, n > 0 if positive else n >= 0))
        out.append(("%s.records" % K, live(v, r, n * ssize(ex, d["r"]))))
        if own:
            out.append(("%s.own" % K, own_(v, r, "%s.%s" % (d["s"], d["ptr"]), p)))
        if d["arrs"]:
            nw = v.f(p, d["s"] + ".nwave")
            out.append(("%s.nwave" % K, nw > 0))
        for a, ty, ln, cond in d["arrs"]:
            q = v.f(at(r, k_), "%s.%s" % (d["r"], a))
            body = live(v, q, alen(v, K, p, ln) * SZ[ty])
            if own:
                body = z3.And(body, own_(v, q, "%s.%s" % (d["r"], a), at(r, k_)))
            out.append(("%s.%s" % (K, a), FA(k_, IMP(AND(rng(k_, n), acond(v, K, p, cond)), body), q.b)))
    else:
        for a, ty, ln in d["tarrs"]:
            q = v.f(p, "%s.%s" % (d["s"], a))
            n = v.f(p, d["s"] + "." + ln)
            out.append(("%s.%s" % (K, a), z3.And(n > 0 if positive else n >= 0, live(v, q, n * SZ[ty]))))
            if own:
                out.append(("%s.%s.own" % (K, a), own_(v, q, "%s.%s" % (d["s"], a), p)))
    return out


def own_(v, q, sf, p):
    return sel(v.map("Own"), q.b) == emb(sf, p.b, p.i)


def scalars(ex, s):
    """non-pointer fields of struct s"""
    return [(f, t) for f, t in ex.struct_fields(s) if t.kind not in ("ptr", "struct")
            and not (t.kind == "arr" and t.to.kind == "ptr")]


def R(name, metas, fn, pat=None):
    """candidates 'for all k below metavariable: fn'"""
    return name, fn, pat


def range_cands(L, name, fn, extra=None):
    """fn(view, k) -> (formula, pattern or None); quantified over 0 <= k < m for every metavariable m"""
    out = []
    for mn, g in L.metas():
        def f(st, g=g):
            v = V(L.ex, st)
            body, pat, *xs = fn(v, k_)
            return FA([k_] + xs, IMP(rng(k_, g(st)), body), *([pat] if pat is not None else []))
        out.append(Cand("%s[<%s]" % (name, mn), f))
    return out


def fact_cand(L, name, fn):
    return [Cand(name, lambda st: fn(V(L.ex, st)))]
