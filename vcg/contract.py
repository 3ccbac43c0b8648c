"""Function contracts: verification of a body against its contract, and use of a
contract at call sites."""
import z3, time
from sym import *
from lib import LIB
from cast import sizeof
import sym


class V:
    """view of a state for specifications"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def f(self, p, sf):
        """field value: f(ptr, 'struct.field')"""
        s, f = sf.rsplit(".", 1)
        t = self.ex.fieldty(s, f)
        if t is None:
            raise Unsupported("no field " + sf)
        if t.kind == "struct":
            return Ptr(emb(sf, p.b, p.i), ZERO)
        nm = "F:" + sf
        if t.kind == "ptr":
            return Ptr(sel(self.ex.hget(self.st, nm + ".b"), p.b, p.i), sel(self.ex.hget(self.st, nm + ".i"), p.b, p.i))
        if t.kind == "arr" and t.to.kind == "ptr":
            return (sel(self.ex.hget(self.st, nm + ".b"), p.b, p.i), sel(self.ex.hget(self.st, nm + ".i"), p.b, p.i))
        return sel(self.ex.hget(self.st, nm), p.b, p.i)

    def a(self, p, sf):
        """array the field points to, taken from its start (specifications require such pointers to have offset 0)"""
        return Ptr(self.f(p, sf).b, ZERO)

    def h(self, ty, p, k=None):
        j = p.i if k is None else (k if z3.is_int_value(p.i) and p.i.as_long() == 0 else p.i + k)
        return sel(self.ex.hget(self.st, "H:" + ty), p.b, j)

    def len(self, b):
        return sel(self.ex.hget(self.st, "Len"), b)

    def llen(self, b):
        return sel(self.ex.hget(self.st, "LLen"), b)

    def ld(self, b, k):
        return Ptr(sel(self.ex.hget(self.st, "LDb"), b, k), sel(self.ex.hget(self.st, "LDi"), b, k))

    @property
    def next(self):
        return self.st.heap["NEXT"]

    def map(self, nm):
        return self.ex.hget(self.st, nm)

    def deref(self, p, ty="int"):
        """value behind an output pointer"""
        if isinstance(p, Ref):
            return self.ex.load(p.lv, self.st)
        return self.h(ty, p)


class Ctx:
    """contract context: args, old/new views, ret"""

    def __init__(self, ex, args, old, new=None, ret=None):
        self.ex, self.args, self.old, self.new, self.ret = ex, args, old, new, ret
        self.defs = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        try:
            return self.args[n]
        except KeyError:
            raise AttributeError(n)


def untouched(b, x):
    """x: the base that may change, or a predicate on bases that may"""
    return z3.Not(x(b)) if callable(x) else b != x


class Contract:
    """pre(c) -> [(name, formula)]; post(c) -> [(name, formula)];
    mod(c) -> [(struct, Ptr)] objects that may be written; anything fresh may be written.
    templates: [fn(ctx, Loop) -> [Cand]]"""

    def __init__(self, name, params, pre=None, post=None, mod=None, templates=(), ret=None, inline=False,
                 setup=None, heapmod=None, config=None, props=(), freshonly=True, argkinds=None, helper=False):
        self.helper = helper
        self.name, self.params = name, params
        self.pre, self.post, self.mod = pre or (lambda c: []), post or (lambda c: []), mod or (lambda c: [])
        self.templates, self.ret, self.inline = list(templates), ret, inline
        self.setup, self.config, self.props = setup, config or {}, props
        self.heapmod = heapmod or (lambda c: [])      # [(map name, base term or predicate on bases)]
        self.argkinds = argkinds or {}
        self._modmaps = None

    # ---------------------------------------------------------------- call site
    def apply(self, ex, vals, rt):
        st = ex.st
        args = dict(zip(self.params, vals))
        for k, v in args.items():
            if isinstance(v, Multi):
                args[k] = ex.to_ptr(v)
        old = V(ex, st.copy())
        c = Ctx(ex, args, old)
        with nopat():
            goals = self.pre(c)
        for nm, g in goals:
            ex.oblige("pre", g, "%s.%s" % (self.name, nm))
        new = st
        maps = self.modmaps(ex)
        modb = {}
        for s, p in self.mod(c):
            for f, t in ex.struct_fields(s):
                if t.kind == "struct":
                    continue
                for nm in ex.field_maps(s, f, t):
                    modb.setdefault(nm, []).append(p.b)
        for nm, b in self.heapmod(c):
            modb.setdefault(nm, []).append(b)
        n0 = st.heap["NEXT"]
        nn = fresh("NEXT", I)
        # every symbol of the state after the call is younger than this one
        callno = int(nn.decl().name().rsplit("!", 1)[1])
        ex.facts.append(nn >= n0)
        b = z3.Int("b")
        for nm in sorted(maps):
            if nm == "NEXT":
                continue
            m0 = ex.hget(st, nm)
            m1 = fresh("M_" + nm, m0.sort())
            bl = modb.get(nm, [])
            old_ = z3.Or(b < n0, tag(b) != 0) if nm.startswith("F:") else z3.And(b < n0, b != 0) if (nm == "Own" or nm.startswith("H:")) else b < n0
            ex.facts.append(FA([b], z3.Implies(z3.And(old_, *[untouched(b, x) for x in bl]), sel(m1, b) == sel(m0, b)), sel(m1, b)))
            if not any(callable(x) for x in bl):
                define(m1, "havoc", m0, callno, bl)
            new.heap[nm] = m1
            for x in bl:
                ex.note_write(nm, b if callable(x) else x, None)
            ex.note_write(nm, z3.Int("fresh_base!999999999"), None)
        new.heap["NEXT"] = nn
        # outputs through Refs
        for pn in self.params:
            v = args[pn]
            if isinstance(v, Ref) and self.argkinds.get(pn) == "out":
                ex.store(v.lv, ex.fresh_val("out_" + pn, v.lv.ty))
        ret = ex.fresh_val("ret_" + self.name, rt) if rt.kind != "void" else None
        c2 = Ctx(ex, args, old, V(ex, new), ret)
        c2.defs = c.defs
        for nm, g in self.post(c2):
            ex.assume(g)
        return ret if ret is not None else ZERO

    def modmaps(self, ex):
        key = self.name
        cache = ex.cfg.setdefault("modmaps_cache", {})
        if key in cache:
            return cache[key]
        # dry symbolic run of the callee's current body
        e2 = Exec(ex.tu, ex.lib, ex.specs, dict(ex.cfg))
        e2.cfg["modmaps_cache"] = cache
        out = set()
        f = ex.tu.funcs.get(self.name)
        if f is None:
            raise Unsupported("no body for " + self.name)
        st, vals = initial(e2, f, self)
        e2.st = st
        e2.dry = 1
        s, ret = e2.run_body(f, vals)
        if s is not None:
            for k, v in s.heap.items():
                if k not in e2.init_heap or not v.eq(e2.init_heap[k]):
                    out.add(k)
        cache[key] = out
        return out


def initial(ex, f, spec):
    st = State()
    ex.st = st
    st.heap["NEXT"] = ex.next0
    ex.facts.append(ex.next0 > 0)
    vals = []
    for k, p in enumerate(f["_params"]):
        t = ex.tu.ty(p["type"]["qualType"])
        nm = spec.params[k] if spec and k < len(spec.params) else p.get("name", "p%d" % k)
        kind = spec.argkinds.get(nm) if spec else None
        if kind == "str":
            key = ("arg", 0, nm)
            st.env[key] = z3.Const("arg_" + nm, STR)
            vals.append(Ref(LV("var", (key,), Ty("arr", to=Ty("int", "char"), n=0))))
        elif kind == "optout":
            key = ("arg", 0, nm)
            st.env[key] = ex.fresh_val("arg_" + nm, t.to)
            vals.append(Ref(LV("var", (key,), t.to), z3.Bool("given_" + nm)))
        elif kind == "out" or (kind is None and t.kind == "ptr" and t.to.kind in ("int", "float") and t.to.name != "char"
                               and "const *" not in p["type"]["qualType"] and not p["type"]["qualType"].startswith("const")):
            key = ("arg", 0, nm)
            st.env[key] = ex.fresh_val("arg_" + nm, t.to)
            vals.append(Ref(LV("var", (key,), t.to)))
        elif t.kind == "ptr" and t.to.kind == "fn":
            vals.append(FnPtr("?" + nm))
        elif t.kind == "ptr":
            b = z3.Int("arg_" + nm)
            i = z3.Int("arg_%s_i" % nm) if kind == "ptri" else ZERO
            ex.facts.append(z3.Or(b < ex.next0, tag(b) != 0))
            if kind != "emb":
                ex.facts.append(z3.And(b >= 0, tag(b) == 0)) if kind != "any" else None
            vals.append(Ptr(b, i))
        elif t.kind == "struct":
            b = z3.Int("arg_" + nm)
            ex.facts.append(b < ex.next0)
            ex.facts.append(b > 0)
            vals.append(Ptr(b, ZERO))
        elif t.kind == "int":
            vals.append(z3.Int("arg_" + nm))
        elif t.kind == "float":
            vals.append(z3.Const("arg_" + nm, F))
        elif t.kind == "arr":
            vals.append(Ptr(z3.Int("arg_" + nm), ZERO))
        else:
            raise Unsupported("parameter type %r" % t)
    return st, vals


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.error = None
        self.loops = 0
        self.inlined, self.contracts, self.models = set(), set(), set()
        self.wall = 0.0
        self.solver_time = 0.0
        self.inv_log = []
        self.vacuous = []


def verify(tu, name, specs, config=None, verbose=0, props=None):
    spec = specs[name]
    r = Result(name)
    t0 = time.time()
    f = tu.funcs.get(name)
    if f is None:
        r.error = "function %s not found in the current source" % name
        return r
    cfg = dict(config or {})
    cfg.update(spec.config)
    cfg["verbose"] = verbose
    import sym
    sym.RICH = bool(cfg.get("rich"))
    ex = Exec(tu, LIB, {k: v for k, v in specs.items() if k != name}, cfg)
    try:
        st, vals = initial(ex, f, spec)
        args = dict(zip(spec.params, vals))
        old = V(ex, st.copy())
        old.st.heap = st.heap.copy()
        c = Ctx(ex, args, V(ex, st.copy()))
        for nm, g in spec.pre(c):
            ex.facts.append(g)
        npre = len(ex.facts)
        ex.ctx = c
        ex.templates = [(lambda L, t=t: t(c, L)) for t in spec.templates]
        ex.st = st
        out, ret = ex.run_body(f, vals)
        ex.fnstack = [name]
        if out is None:
            r.error = "no normal exit"
            r.obls = ex.obls
        else:
            ex.st = out
            c2 = Ctx(ex, args, c.old, V(ex, out), ret)
            c2.defs = c.defs
            ex.curline = f.get("_l")
            with nopat():
                goals = spec.post(c2)
            for nm, g in goals:
                ex.oblige("post", g, nm)
            # frame
            modb = {}
            for s, p in spec.mod(c):
                for fl, t in ex.struct_fields(s):
                    if t.kind == "struct":
                        continue
                    for nm in ex.field_maps(s, fl, t):
                        modb.setdefault(nm, []).append(p.b)
            for nm, b in spec.heapmod(c):
                modb.setdefault(nm, []).append(b)
            b = z3.Int("b")
            for nm in sorted(out.heap):
                if nm == "NEXT" or out.heap[nm].eq(ex.init_map(nm)):
                    continue
                bl = modb.get(nm, [])
                old_ = z3.Or(b < ex.next0, tag(b) != 0) if nm.startswith("F:") else \
                    z3.And(b < ex.next0, b != 0) if (nm == "Own" or nm.startswith("H:")) else b < ex.next0
                ex.oblige("frame", z3.ForAll([b], z3.Implies(z3.And(old_, *[untouched(b, x) for x in bl]),
                                                             sel(out.heap[nm], b) == sel(ex.init_map(nm), b))), nm)
            # vacuity guard: the exit must be reachable (false not provable)
            o = Obligation("%s:vacuity" % name, "vacuity", name, None, (list(ex.facts), conj(out.pc)), FALSE)
            ex.obls.append(o)
            r.obls = ex.obls
    except Unsupported as e:
        r.error = "unsupported: %s (line %s)" % (e, ex.curline)
        r.obls = ex.obls
    bg = ex.bgfacts
    r.inlined, r.contracts, r.models = ex.inlined, ex.used_contracts, ex.used_models
    r.inv_log = ex.inv_log
    r.solver_time += ex.solver_time
    r.loops = ex.loop_count
    r.symtime = time.time() - t0
    discharge(r, bg, cfg, verbose)
    r.wall = time.time() - t0
    return r


def discharge(r, bg, cfg, verbose):
    axioms = background(cfg)
    to = cfg.get("timeout", 10000)
    todo = [o for o in r.obls if o.status is None]

    def one(k):
        o = todo[k]
        facts, pc = o.facts
        t1 = time.time()
        vac = o.kind == "vacuity"
        res, how, s = solve(axioms + bg + list(facts) + [pc] + skolem_instances(bg + list(facts), o.goal), 1000 if vac else to,
                            1 if vac else cfg.get("tries"), None if vac else o.goal)
        dt = time.time() - t1
        if vac:
            return ("proved" if res != z3.unsat else "failed", "z3",
                    "contradictory assumptions: exit unreachable" if res == z3.unsat else "", dt)
        if res == z3.unsat:
            return "proved", how, "", dt
        if cfg.get("dump"):
            dump_smt(cfg["dump"], o.name, s)
        return "failed", "z3", "solver: unknown (%s)" % how, dt
    for o, (st, bk, det, dt) in zip(todo, pmap(one, len(todo))):
        o.status, o.backend, o.detail, o.time = st, bk, det, dt
        r.solver_time += dt
        if verbose and (verbose >= 2 or o.status != "proved" or o.time > 1):
            print("  %-8s %-60s L%s %.2fs %s" % (o.status, o.name, o.line, o.time, o.detail))
        o.facts = None
    return r


def dump_smt(d, name, s):
    fn = name.replace("/", "_").replace(" ", "_").replace(":", "_")
    open("%s/%s.smt2" % (d, fn), "w").write(s.to_smt2())
