"""What it means for a table / record / channel to pass a filter: the meaning the
header documentation of oi_filter_spec gives to each field, in the arithmetic of the library."""
from tables import *
from lib import PM

t_ = z3.Int("t")
LISTS = dict(array="arrayList", wavelength="wavelengthList", corr="corrList", inspol="inspolList", vis="visList",
             vis2="vis2List", t3="t3List", flux="fluxList")
NUMS = dict(array="numArray", wavelength="numWavelength", corr="numCorr", inspol="numInspol", vis="numVis",
            vis2="numVis2", t3="numT3", flux="numFlux")
FS = "oi_filter_spec."


def lookup(v, D, h, key):
    """value of a name in one of the dataset's hash tables (NULL if absent)"""
    hb = v.f(D, "oi_fits." + h).b
    has = sel(v.map("HHas"), hb, key)
    return Ptr(z3.If(has, sel(v.map("HVb"), hb, key), ZERO), z3.If(has, sel(v.map("HVi"), hb, key), ZERO))


def rngf(v, f, nm, k):
    """element k of a range field"""
    return sel(v.f(f, FS + nm), z3.IntVal(k))


def in_range(v, f, nm, x):
    return z3.And(z3.Not(flt(x, rngf(v, f, nm, 0))), z3.Not(flt(rngf(v, f, nm, 1), x)))


def add(a, b):
    return fop("fadd_double")(a, b)


def mul(a, b):
    return fop("fmul_double")(a, b)


def div(a, b):
    return fop("fdiv_double")(a, b)


def hyp(u, w):
    return fop("fpow")(add(mul(u, u), mul(w, w)), flit(0.5))


RAD2DEG = 180.0 / 3.14159


def wave(v, W, j):
    return v.h("float", v.a(W, "oi_wavelength.eff_wave"), j)


def baselines(v, K, R):
    r = KINDS[K]["r"]
    if K == "t3":
        u1, v1, u2, v2 = [v.f(R, r + "." + n) for n in ("u1coord", "v1coord", "u2coord", "v2coord")]
        return [hyp(u1, v1), hyp(u2, v2), hyp(add(u1, u2), add(v1, v2))]
    if K == "flux":
        return []
    return [hyp(v.f(R, r + ".ucoord"), v.f(R, r + ".vcoord"))]


def accept_table(v, f, K, T):
    s = KINDS[K]["s"]
    names = ["arrname", "insname", "corrname"] if K != "inspol" else ["arrname"]
    return z3.And(*[PM(v.f(f, FS + n), v.f(T, "%s.%s" % (s, n))) for n in names])


def accept_record(v, f, K, R):
    """target, time and baseline criteria"""
    r = KINDS[K]["r"]
    tid = v.f(f, FS + "target_id")
    out = [z3.Or(tid < 0, v.f(R, r + ".target_id") == tid), in_range(v, f, "mjd_range", v.f(R, r + ".mjd"))]
    out += [in_range(v, f, "bas_range", b) for b in baselines(v, K, R)]
    return z3.And(*out)


def snr_ok(v, f, K, R, j):
    r = KINDS[K]["r"]
    g = lambda a: v.h("double", v.a(R, r + "." + a), j)
    amp = lambda a, e: in_range(v, f, "snr_range", d2f(div(g(a), g(e))))
    phi = lambda e: in_range(v, f, "snr_range", d2f(div(flit(RAD2DEG), g(e))))
    if K == "vis":
        return z3.And(amp("visamp", "visamperr"), phi("visphierr"))
    if K == "vis2":
        return amp("vis2data", "vis2err")
    if K == "t3":
        on = lambda n: v.f(f, FS + n) != 0
        return z3.And(IMP(on("accept_t3amp"), amp("t3amp", "t3amperr")), IMP(on("accept_t3phi"), phi("t3phierr")))
    return amp("fluxdata", "fluxerr")


def uvrad_ok(v, f, K, R, ew):
    return z3.And(TRUE, *[in_range(v, f, "uvrad_range", div(b, ew)) for b in baselines(v, K, R)])


def accept_channel(v, f, K, R, W, j):
    r = KINDS[K]["r"]
    ew = wave(v, W, j)
    return z3.And(in_range(v, f, "wave_range", ew), snr_ok(v, f, K, R, j), uvrad_ok(v, f, K, R, ew),
                  z3.Or(v.h("char", v.a(R, r + ".flag"), j) == 0, v.f(f, FS + "accept_flagged") != 0))


def default_filter(v, f):
    """init_oi_filter: everything is accepted"""
    import struct
    f32 = lambda x: struct.unpack("f", struct.pack("f", x))[0]
    out = [(n, v.f(f, FS + n) == slit("*")) for n in ("arrname", "insname", "corrname")]
    out.append(("target_id", v.f(f, FS + "target_id") == -1))
    for n, a, b in (("mjd_range", 0.0, 1e7), ("wave_range", 0.0, f32(1e-4)), ("bas_range", 0.0, 1e4),
                    ("uvrad_range", 0.0, 1e11), ("snr_range", -5.0, f32(1e10))):
        out.append((n, z3.And(rngf(v, f, n, 0) == flit(a), rngf(v, f, n, 1) == flit(b))))
    for n in ("vis", "vis2", "t3amp", "t3phi", "flux", "flagged"):
        out.append(("accept_" + n, v.f(f, FS + "accept_" + n) != 0))
    for n in ("arrname", "insname", "corrname"):
        p = v.f(f, FS + n + "_pttn")
        out.append((n + "_pttn", z3.And(p.b == 0, p.i == 0)))
    return out
