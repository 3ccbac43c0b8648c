"""Trusted models of external functions (libc, GLib).  Every entry is an assumption
and is reported in the evidence when a proof used it."""
import z3
from sym import *
from cast import sizeof

LIB = {}


def model(*names, always=False):
    def d(f):
        f.always = always
        for n in names:
            LIB[n] = f
        return f
    return d


def strip(n):
    while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
        if n["kind"] != "ParenExpr" and n["castKind"] not in ("BitCast", "NoOp", "LValueToRValue", "ArrayToPointerDecay"):
            break
        if n["kind"] == "ImplicitCastExpr" and n["castKind"] in ("LValueToRValue", "ArrayToPointerDecay"):
            break
        n = n["inner"][0]
    return n


def pretype(ex, n):
    """static type of a pointer argument before conversion to void*"""
    return ex.nty(strip(n))


def evargs(ex, args):
    return [ex.ev(a) for a in args]


def die(ex, what, rt):
    ex.oblige("assert", FALSE, what)
    ex.st.dead = True
    return ex.fresh_val("dead", rt)


@model("g_assertion_message_expr", "g_assertion_message_cmpstr", "g_assertion_message_cmpint", "__assert_fail",
       "g_assertion_message", "g_assertion_message_cmpnum", "g_assert_warning")
def _(ex, args, n, rt):
    return die(ex, "assertion cannot fail", rt)


@model("abort", "exit")
def _(ex, args, n, rt):
    return die(ex, "no abort", rt)


@model("fprintf", "printf", "puts", "fputs", "ffrprt", "ffpmsg", "fflush", "perror", "ffgerr", "g_print", "putchar", "fputc")
def _(ex, args, n, rt):
    for a in args:
        t = ex.nty(a)
        if t.kind == "struct":
            continue
        try:
            ex.ev(a)
        except Unsupported:
            pass
    return ex.fresh_val("out", rt) if rt.kind != "void" else ZERO


@model("g_log")
def _(ex, args, n, rt):
    lv = z3.simplify(ex.as_int(ex.ev(args[1])))
    if z3.is_int_value(lv) and lv.as_long() & 4:
        return die(ex, "g_error", rt)
    return ZERO


@model("_chkmalloc", always=True)
def _(ex, args, n, rt):
    sz = ex.as_int(ex.ev(args[0]))
    ex.oblige("alloc", sz > 0, "allocation size nonzero")
    return Ptr(ex.new_object(sz, "chk"), ZERO)


@model("malloc", "g_malloc")
def _(ex, args, n, rt):
    sz = ex.as_int(ex.ev(args[0]))
    return Ptr(ex.new_object(sz, "mal"), ZERO)


def scalar_maps(ex, t):
    """heap maps holding an array of t"""
    if t.kind == "struct":
        out = []
        for f, ft in ex.struct_fields(t.name):
            if ft.kind == "struct":
                raise Unsupported("array of nested structs")
            out += ex.field_maps(t.name, f, ft)
        return out
    if t.kind == "ptr":
        return ["H:ptr.b", "H:ptr.i"]
    return ["H:" + t.name]


def rename_owner(ex, t, ob, nb):
    """the records moved from block ob to nb: what they own is now owned by the records in nb"""
    st = ex.st
    m = ex.hget(st, "Own")
    a = fresh("M_Own", m.sort())
    b = z3.Int("b")
    o = rsel(m, b)
    v = o
    for f, ft in ex.struct_fields(t.name):
        if ft.kind == "ptr":
            sf = "%s.%s" % (t.name, f)
            v = z3.If(z3.And(tag(o) == emb_tag(sf), invb(o) == ob), emb(sf, nb, invi(o)), v)
    ex.assume(z3.ForAll([b], sel(a, b) == v, patterns=[sel(a, b)]))
    st.heap["Own"] = a
    ex.note_write("Own", z3.Int("fresh_base!999999999"), None)


def realloc(ex, args, n, rt, zero_ok=False):
    pn = pretype(ex, args[0])
    p = ex.to_ptr(ex.ev(args[0]))
    sz = ex.as_int(ex.ev(args[1]))
    if not zero_ok:
        ex.oblige("alloc", sz > 0, "reallocation size nonzero")
    else:
        ex.oblige("alloc", sz >= 0, "reallocation size not negative")
    st = ex.st
    old = rsel(ex.hget(st, "Len"), p.b)
    ex.oblige("mem", z3.And(p.b != 0, p.i == 0, old >= 0), "realloc of a live block")
    nb = ex.new_object(sz, "re")
    t = pn.to
    es = sizeof(ex.tu, t)
    k = z3.Int("k")
    for nm in scalar_maps(ex, t):
        m = ex.hget(st, nm)
        a = fresh("re_" + nm, m.sort().range())
        src = rsel(m, p.b)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, (k + 1) * es <= sz, (k + 1) * es <= old),
                                            sel(a, k) == sel(src, k)), patterns=[sel(a, k)]))
        ex.setmap(st, nm, (nb,), a)
    ex.setmap(st, "Len", (p.b,), z3.IntVal(-1))
    if ex.cfg.get("own") and t.kind == "struct":
        rename_owner(ex, t, p.b, nb)
    if zero_ok and not z3.is_int_value(z3.simplify(sz)):
        return Ptr(z3.If(sz == 0, ZERO, nb), ZERO)     # glibc: realloc(p, 0) frees p
    return Ptr(nb, ZERO)


@model("_chkrealloc", always=True)
def _(ex, args, n, rt):
    return realloc(ex, args, n, rt)


@model("realloc")
def _(ex, args, n, rt):
    return realloc(ex, args, n, rt, True)


def do_free(ex, p):
    st = ex.st
    if isinstance(p, Ref):
        ex.oblige("free", FALSE, "free of a non-heap object")
        return
    p = ex.to_ptr(p)
    ln = ex.hget(st, "Len")
    ex.oblige("free", z3.Or(p.b == 0, z3.And(p.i == 0, tag(p.b) == 0, rsel(ln, p.b) >= 0)), "free of a live block or NULL")
    isn = ex.is_null(p)
    if z3.is_false(z3.simplify(isn)):
        ex.setmap(st, "Len", (p.b,), z3.IntVal(-1))
    else:
        ex.setmap(st, "Len", (p.b,), z3.If(isn, rsel(ln, p.b), z3.IntVal(-1)))


@model("free", "g_free")
def _(ex, args, n, rt):
    do_free(ex, ex.ev(args[0]))
    return ZERO


@model("memcpy", "memmove", "__builtin___memcpy_chk")
def _(ex, args, n, rt):
    dt, st_ = pretype(ex, args[0]), pretype(ex, args[1])
    if dt.kind == "arr":
        dt = Ty("ptr", to=dt.to)
    if st_.kind == "arr":
        st_ = Ty("ptr", to=st_.to)
    d, s = ex.ev(args[0]), ex.ev(args[1])
    sz = ex.as_int(ex.ev(args[2]))
    t = dt.to if dt.to.kind != "void" else st_.to
    st = ex.st
    es = sizeof(ex.tu, t)
    if isinstance(d, Ref) and isinstance(s, Ref) and d.lv.k in ("elem", "field", "var"):
        # inline arrays: whole-array copies only
        a, b = (d.lv.a[0] if d.lv.k == "elem" else d.lv), (s.lv.a[0] if s.lv.k == "elem" else s.lv)
        szv = z3.simplify(sz)
        if z3.is_int_value(szv) and szv.as_long() == sizeof(ex.tu, a.ty) and sizeof(ex.tu, b.ty) >= szv.as_long():
            ex.store(a, ex.load(b))
            return d
        raise Unsupported("memcpy of part of an inline array")
    d, s = ex.to_ptr(d), ex.to_ptr(s)
    szv = z3.simplify(sz)
    ln = ex.hget(st, "Len")
    if t.kind == "struct" and z3.is_int_value(szv) and szv.as_long() == es:
        ex.check_access(d, es, "memcpy destination")
        ex.check_access(s, es, "memcpy source")
        ex.copy_struct(t.name, d, s)
        return d
    ex.oblige("mem", z3.And(d.b != 0, s.b != 0, d.i >= 0, s.i >= 0,
                            d.i * es + sz <= rsel(ln, d.b), s.i * es + sz <= rsel(ln, s.b)), "memcpy within both blocks")
    if sizeof(ex.tu, st_.to) != es and st_.to.kind != "void":
        raise Unsupported("memcpy between different element types")
    k = z3.Int("k")
    for nm in scalar_maps(ex, t):
        m = ex.hget(st, nm)
        a = fresh("cp_" + nm, m.sort().range())
        src, old = rsel(m, s.b), rsel(m, d.b)
        ksrc = k if (d.i.eq(s.i)) else k - d.i + s.i
        inr = z3.And(d.i <= k, (k - d.i + 1) * es <= sz)
        ex.assume(z3.ForAll([k], z3.Implies(inr, sel(a, k) == sel(src, ksrc)), patterns=[sel(a, k)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Not(inr), sel(a, k) == sel(old, k)), patterns=[sel(a, k)]))
        ex.setmap(st, nm, (d.b,), a)
    return d


# ---------------------------------------------------------------- strings
def setstr(ex, dst, val):
    if isinstance(dst, Ref):
        lv = dst.lv
        if ex.is_str(lv.ty):
            ex.store(lv, val)
            return
        raise Unsupported("string store %r" % (dst,))
    p = ex.to_ptr(dst)
    if z3.is_app(p.b) and p.b.decl().name().startswith("emb_"):
        sf = p.b.decl().name()[4:]
        s, f = sf.rsplit(".", 1)
        ex.store(LV("field", (s, f, p.b.arg(0), p.b.arg(1)), ex.fieldty(s, f)), val)
        return
    ex.setmap(ex.st, "S", (p.b,), val)


@model("strcmp", "g_strcmp0")
def _(ex, args, n, rt):
    a, b = evargs(ex, args[:2])
    return strcmpf(ex.str_at(a), ex.str_at(b))


@model("strlen")
def _(ex, args, n, rt):
    return slen(ex.str_at(ex.ev(args[0])))


@model("g_strlcpy")
def _(ex, args, n, rt):
    d, s, k = evargs(ex, args)
    k = ex.as_int(k)
    v = ex.str_at(s)
    ex.oblige("mem", z3.And(k > 0, k <= str_capacity(ex, d)), "g_strlcpy size within destination")
    setstr(ex, d, strunc(v, k))
    return slen(v)


def str_capacity(ex, d):
    if isinstance(d, Ref) and ex.is_str(d.lv.ty) and d.lv.ty.n:
        return z3.IntVal(d.lv.ty.n)
    p = ex.to_ptr(d)
    return rsel(ex.hget(ex.st, "Len"), p.b)


@model("strcpy")
def _(ex, args, n, rt):
    d, s = evargs(ex, args)
    v = ex.str_at(s)
    ex.oblige("mem", slen(v) < str_capacity(ex, d), "strcpy fits")
    setstr(ex, d, v)
    return d


@model("strncpy")
def _(ex, args, n, rt):
    d, s, k = evargs(ex, args)
    v = ex.str_at(s)
    k = ex.as_int(k)
    ex.oblige("mem", k <= str_capacity(ex, d), "strncpy within destination")
    r = fresh("strncpy", STR)
    ex.assume(z3.Implies(slen(v) < k, r == v))
    # not terminated when too long: contents up to k chars; a later explicit terminator truncates it
    ex.assume(z3.Implies(slen(v) >= k, strunc(r, k + 1) == strunc(v, k + 1)))
    ex.assume(z3.ForAll([z3.Int("q")], z3.Implies(z3.Int("q") <= k + 1, strunc(r, z3.Int("q")) == strunc(v, z3.Int("q"))),
                        patterns=[strunc(r, z3.Int("q"))]))
    setstr(ex, d, r)
    return d


_fmt = {}


def fmtfn(fmt, sorts):
    k = (fmt, tuple(s.name() for s in sorts))
    if k not in _fmt:
        _fmt[k] = z3.Function("fmt_%d" % len(_fmt), *(list(sorts) + [STR])) if sorts else z3.Const("fmt_%d" % len(_fmt), STR)
    return _fmt[k]


def fmtval(ex, fmt, args):
    vals = []
    for a in args:
        t = ex.nty(a)
        v = ex.ev(a)
        if t.kind == "ptr":
            v = ex.str_at(v)
        elif t.kind == "int":
            v = ex.as_int(v)
        vals.append(v)
    f = fmtfn(fmt, [v.sort() for v in vals])
    if fmt == "%s" and len(vals) == 1:
        return vals[0]
    if not vals and "%" not in fmt:
        return slit(fmt)
    return f(*vals) if vals else f


def litstr(ex, v):
    p = ex.to_ptr(v)
    if z3.is_int_value(p.b):
        for s, k in __import__("sym")._slitbase.items():
            if k == p.b.as_long():
                return s
    return None


@model("g_snprintf", "snprintf", "__builtin___snprintf_chk")
def _(ex, args, n, rt):
    d = ex.ev(args[0])
    k = ex.as_int(ex.ev(args[1]))
    f = litstr(ex, ex.ev(args[2]))
    if f is None:
        raise Unsupported("non-literal format")
    v = fmtval(ex, f, args[3:])
    ex.oblige("mem", k <= str_capacity(ex, d), "snprintf size within destination")
    setstr(ex, d, strunc(v, k))
    r = fresh("snprintf", I)
    ex.assume(r == slen(v))
    return r


@model("g_strdup", "g_strdup_inline", "strdup")
def _(ex, args, n, rt):
    p = ex.ev(args[0])
    v = ex.str_at(p)
    b = ex.new_object(slen(v) + 1, "strdup")
    ex.setmap(ex.st, "S", (b,), v)
    isn = ex.is_null(p)
    return Ptr(z3.If(isn, ZERO, b), ZERO) if not z3.is_false(isn) else Ptr(b, ZERO)


# ---------------------------------------------------------------- maths
@model("pow")
def _(ex, args, n, rt):
    a, b = evargs(ex, args)
    return fop("fpow")(a, b)


@model("sqrt")
def _(ex, args, n, rt):
    return fop("fpow")(ex.ev(args[0]), flit(0.5))


@model("fabs", "fabsf")
def _(ex, args, n, rt):
    return fop("ffabs", 1)(ex.ev(args[0]))


@model("floor", "ceil", "log", "exp", "sin", "cos", "isnan", "round")
def _(ex, args, n, rt):
    nm = strip(n["inner"][0])["referencedDecl"]["name"]
    return fop("f_" + nm, 1)(ex.ev(args[0]))


@model("g_pattern_match_string", "g_pattern_spec_match_string")
def _(ex, args, n, rt):
    a, b = evargs(ex, args)
    return patmatch(ex.to_ptr(a).b, ex.str_at(b))


PM = z3.Function("pattern_match", STR, STR, B)      # glob text, string
patof = z3.Function("pattern_text", I, STR)          # text of a compiled pattern


def patmatch(pb, s):
    return PM(patof(pb), s)


@model("g_pattern_spec_new")
def _(ex, args, n, rt):
    s = ex.str_at(ex.ev(args[0]))
    b = ex.new_object(z3.IntVal(1), "pattern")
    ex.assume(patof(b) == s)
    return Ptr(b, ZERO)


@model("g_pattern_spec_free")
def _(ex, args, n, rt):
    do_free(ex, ex.ev(args[0]))
    return ZERO


# ---------------------------------------------------------------- GList
def llen(ex, st, b):
    return rsel(ex.hget(st, "LLen"), b)


@model("g_list_append")
def _(ex, args, n, rt):
    l, d = evargs(ex, args)
    l, d = ex.to_ptr(l), ex.to_ptr(d)
    st = ex.st
    nb = ex.new_object(None, "list")
    ex.setmap(st, "LLen", (nb,), ZERO)
    b = fresh("lst", I)
    ex.assume(b == z3.If(l.b == 0, nb, l.b))
    ln = llen(ex, st, b)
    lnv = fresh("llen", I)
    ex.assume(lnv == ln)
    ex.setmap(st, "LDb", (b, lnv), d.b)
    ex.setmap(st, "LDi", (b, lnv), d.i)
    ex.setmap(st, "LLen", (b,), lnv + 1)
    return Ptr(b, z3.If(l.b == 0, ZERO, l.i))


@model("g_list_prepend")
def _(ex, args, n, rt):
    l, d = evargs(ex, args)
    l, d = ex.to_ptr(l), ex.to_ptr(d)
    st = ex.st
    nb = ex.new_object(None, "list")
    ol = fresh("llen", I)
    ex.assume(ol == z3.If(l.b == 0, ZERO, llen(ex, st, l.b)))
    k = z3.Int("k")
    for nm, v in (("LDb", d.b), ("LDi", d.i)):
        m = ex.hget(st, nm)
        a = fresh("pre_" + nm, m.sort().range())
        ex.assume(a[0] == v)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 < k, k <= ol), a[k] == sel(m, l.b, k - 1)), patterns=[a[k]]))
        ex.setmap(st, nm, (nb,), a)
    ex.setmap(st, "LLen", (nb,), ol + 1)
    return Ptr(nb, ZERO)


@model("g_list_reverse")
def _(ex, args, n, rt):
    l = ex.to_ptr(ex.ev(args[0]))
    st = ex.st
    nb = ex.new_object(None, "list")
    ol = fresh("llen", I)
    ex.assume(ol == z3.If(l.b == 0, ZERO, llen(ex, st, l.b)))
    k = z3.Int("k")
    for nm in ("LDb", "LDi"):
        m = ex.hget(st, nm)
        a = fresh("rev_" + nm, m.sort().range())
        src = sel(m, l.b)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ol), a[k] == sel(src, ol - 1 - k)), patterns=[a[k]]))
        # the converse direction, so that membership transfers both ways
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ol), sel(src, k) == a[ol - 1 - k]), patterns=[sel(src, k)]))
        ex.setmap(st, nm, (nb,), a)
    ex.setmap(st, "LLen", (nb,), ol)
    return Ptr(z3.If(l.b == 0, ZERO, nb), ZERO)


@model("g_list_remove")
def _(ex, args, n, rt):
    l, d = evargs(ex, args)
    l, d = ex.to_ptr(l), ex.to_ptr(d)
    st = ex.st
    nb = ex.new_object(None, "list")
    ol = fresh("llen", I)
    ex.assume(ol == z3.If(l.b == 0, ZERO, llen(ex, st, l.b)))
    p = fresh("rmpos", I)
    k = z3.Int("k")
    mb, mi = sel(ex.hget(st, "LDb"), l.b), sel(ex.hget(st, "LDi"), l.b)
    eq = lambda x: z3.And(sel(mb, x) == d.b, sel(mi, x) == d.i)
    ex.assume(z3.And(0 <= p, p <= ol, z3.Implies(p < ol, eq(p))))
    ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), z3.Not(eq(k))), patterns=[sel(mb, k)]))
    for nm in ("LDb", "LDi"):
        m = ex.hget(st, nm)
        a = fresh("rm_" + nm, m.sort().range())
        src = sel(m, l.b)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ol), a[k] == z3.If(k < p, sel(src, k), sel(src, k + 1))), patterns=[a[k]]))
        ex.setmap(st, nm, (nb,), a)
    ex.setmap(st, "LLen", (nb,), ol - 1)
    found = p < ol
    return Ptr(z3.If(found, z3.If(ol == 1, ZERO, nb), l.b), z3.If(found, ZERO, l.i))


@model("g_list_find_custom")
def _(ex, args, n, rt):
    l = ex.to_ptr(ex.ev(args[0]))
    key = ex.ev(args[1])
    fn = ex.ev(args[2])
    if not isinstance(fn, FnPtr) or fn.name not in ("strcmp", "g_strcmp0"):
        raise Unsupported("g_list_find_custom comparator")
    st = ex.st
    kv = ex.str_at(key)
    ol = fresh("llen", I)
    ex.assume(ol == z3.If(l.b == 0, ZERO, llen(ex, st, l.b)))
    p = fresh("find", I)
    k = z3.Int("k")
    mb, mi = sel(ex.hget(st, "LDb"), l.b), sel(ex.hget(st, "LDi"), l.b)
    eq = lambda x: ex.str_at(Ptr(sel(mb, x), sel(mi, x))) == kv
    ex.assume(z3.And(0 <= p, p <= ol, z3.Implies(p < ol, eq(p))))
    ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), z3.Not(eq(k))), patterns=[sel(mb, k)]))
    return Ptr(z3.If(p < ol, l.b, ZERO), z3.If(p < ol, p, ZERO))


@model("g_list_position")
def _(ex, args, n, rt):
    l, k = evargs(ex, args)
    l, k = ex.to_ptr(l), ex.to_ptr(k)
    return z3.If(z3.And(l.b == k.b, k.b != 0), k.i, z3.IntVal(-1))


@model("g_list_length")
def _(ex, args, n, rt):
    l = ex.to_ptr(ex.ev(args[0]))
    return z3.If(l.b == 0, ZERO, llen(ex, ex.st, l.b) - l.i)


@model("g_list_nth_data")
def _(ex, args, n, rt):
    l, k = evargs(ex, args)
    l, k = ex.to_ptr(l), ex.as_int(k)
    st = ex.st
    ok = z3.And(l.b != 0, k >= 0, l.i + k < llen(ex, st, l.b))
    return Ptr(z3.If(ok, sel(ex.hget(st, "LDb"), l.b, l.i + k), ZERO), z3.If(ok, sel(ex.hget(st, "LDi"), l.b, l.i + k), ZERO))


@model("g_list_nth")
def _(ex, args, n, rt):
    l, k = evargs(ex, args)
    l, k = ex.to_ptr(l), ex.as_int(k)
    ok = z3.And(l.b != 0, k >= 0, l.i + k < llen(ex, ex.st, l.b))
    return Ptr(z3.If(ok, l.b, ZERO), z3.If(ok, l.i + k, ZERO))


@model("g_list_first")
def _(ex, args, n, rt):
    l = ex.to_ptr(ex.ev(args[0]))
    return Ptr(l.b, ZERO)


@model("g_list_free")
def _(ex, args, n, rt):
    l = ex.to_ptr(ex.ev(args[0]))
    st = ex.st
    ex.oblige("free", z3.Or(l.b == 0, z3.And(l.i == 0, llen(ex, st, l.b) >= 0)), "g_list_free of a live list")
    ex.setmap(st, "LLen", (l.b,), z3.If(l.b == 0, llen(ex, st, l.b), z3.IntVal(-1)))
    return ZERO


# ---------------------------------------------------------------- GHashTable (string keys)
@model("g_hash_table_new_full", "g_hash_table_new")
def _(ex, args, n, rt):
    evargs(ex, args)
    b = ex.new_object(z3.IntVal(1), "hash")
    ex.setmap(ex.st, "HHas", (b,), z3.K(STR, FALSE))
    return Ptr(b, ZERO)


@model("g_hash_table_destroy", "g_hash_table_unref")
def _(ex, args, n, rt):
    do_free(ex, ex.ev(args[0]))
    return ZERO


@model("g_hash_table_insert")
def _(ex, args, n, rt):
    h, k, v = evargs(ex, args)
    h, v = ex.to_ptr(h), ex.to_ptr(v)
    kv = ex.str_at(k)
    st = ex.st
    ex.oblige("mem", h.b != 0, "hash table not NULL")
    ex.setmap(st, "HHas", (h.b, kv), TRUE)
    ex.setmap(st, "HVb", (h.b, kv), v.b)
    ex.setmap(st, "HVi", (h.b, kv), v.i)
    return TRUE


@model("g_hash_table_remove")
def _(ex, args, n, rt):
    h, k = evargs(ex, args)
    h = ex.to_ptr(h)
    kv = ex.str_at(k)
    r = ex.rs(ex.hget(ex.st, "HHas"), h.b, kv)
    ex.setmap(ex.st, "HHas", (h.b, kv), FALSE)
    return r


@model("g_hash_table_lookup")
def _(ex, args, n, rt):
    h, k = evargs(ex, args)
    h = ex.to_ptr(h)
    kv = ex.str_at(k)
    st = ex.st
    has = ex.rs(ex.hget(st, "HHas"), h.b, kv)
    return Ptr(z3.If(has, ex.rs(ex.hget(st, "HVb"), h.b, kv), ZERO), z3.If(has, ex.rs(ex.hget(st, "HVi"), h.b, kv), ZERO))


# ---------------------------------------------------------------- GString and friends: opaque text
@model("g_string_append_printf", "g_string_printf", "g_string_append", "g_string_assign")
def _(ex, args, n, rt):
    for a in args:
        ex.ev(a)
    return ZERO


@model("g_string_sized_new", "g_string_new")
def _(ex, args, n, rt):
    return Ptr(ex.new_object(z3.IntVal(24), "gstring"), ZERO)


@model("g_string_chunk_new")
def _(ex, args, n, rt):
    ex.ev(args[0])
    return Ptr(ex.new_object(z3.IntVal(64), "gstringchunk"), ZERO)


@model("g_string_chunk_insert", "g_string_chunk_insert_const")
def _(ex, args, n, rt):
    ch, p = ex.to_ptr(ex.ev(args[0])), ex.ev(args[1])
    ex.check_access(ch, 1, "string chunk")
    v = ex.str_at(p)
    b = ex.new_object(slen(v) + 1, "chunkstr")
    ex.setmap(ex.st, "S", (b,), v)
    return Ptr(b, ZERO)


@model("g_string_chunk_free")
def _(ex, args, n, rt):
    do_free(ex, ex.to_ptr(ex.ev(args[0])))
    return ZERO


@model("__builtin_va_start", "__builtin_va_end")
def _(ex, args, n, rt):
    return ZERO


# ---------------------------------------------------------------- scanf: a function of the text and the format
def scnfn(fmt):
    return z3.Function("scanned_" + fmt, STR, I)


def scvfn(fmt, k):
    return z3.Function("scanned%d_%s" % (k, fmt), STR, I)


@model("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")
def _(ex, args, n, rt):
    s = ex.str_at(ex.ev(args[0]))
    f = litstr(ex, ex.ev(args[1]))
    if f is None or any(x in f for x in ("%s", "%f", "%c", "%n", "[")):
        raise Unsupported("sscanf format")
    cnt = scnfn(f)(s)
    outs = [ex.ev(a) for a in args[2:]]
    ex.assume(z3.And(cnt >= -1, cnt <= len(outs)))
    for k, d in enumerate(outs):
        if not isinstance(d, Ref) or d.c is not None:
            raise Unsupported("sscanf into memory")
        old = ex.as_int(ex.load(d.lv))
        ex.store(d.lv, z3.If(cnt > k, scvfn(f, k)(s), old))
    return cnt
