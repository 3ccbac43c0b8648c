"""Deductive verification-condition generator for C (the dialect oifitslib uses).

Symbolic execution with state merging over clang's AST of the real source; loops
are cut by inductive invariants (Houdini over candidate templates), calls are cut
by contracts when the callee has one, and every proof obligation is discharged by
an SMT solver.  See DESIGN.md for the memory model and its trusted assumptions."""
import os, z3, itertools, time
from cast import Ty, parse_type, sizeof

I = z3.IntSort()
B = z3.BoolSort()
F = z3.DeclareSort("F")      # floating-point values (float/double/complex), uninterpreted
STR = z3.DeclareSort("Str")  # NUL-terminated string contents
ZERO = z3.IntVal(0)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("b", "i")

    def __init__(self, b, i=ZERO):
        self.b, self.i = b, i

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.b, self.i)


class Ref:
    """pointer to an lvalue (local, field, inline array element)"""
    __slots__ = ("lv", "c")

    def __init__(self, lv, c=None):
        self.lv = lv
        self.c = c            # condition under which the pointer is not NULL (None: always)

    def __repr__(self):
        return "Ref(%s)" % (self.lv,)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, why=""):
        self.why = why


class Multi:
    """guarded alternatives of non-mergeable pointer values: [(cond, value)], last is default"""
    def __init__(self, alts):
        self.alts = alts


NULL = Ptr(ZERO, ZERO)


class LV:
    """kinds: var(key) | field(struct,field,b,i) | heap(tykey,b,i) | elem(base LV, idx) | str(b)"""
    __slots__ = ("k", "a", "ty")

    def __init__(self, k, a, ty):
        self.k, self.a, self.ty = k, a, ty

    def __repr__(self):
        return "LV%s" % ((self.k, self.a),)


# ---------------------------------------------------------------- symbols
_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_fresh)), sort)


def A(*sorts):
    s = sorts[-1]
    for d in reversed(sorts[:-1]):
        s = z3.ArraySort(d, s)
    return s


def sel(m, *ix):
    """select, resolved through definitions (see rsel)"""
    for x in ix:
        m = rsel(m, x)
    return m


def sto(m, ix, v):
    if len(ix) == 1:
        return z3.Store(m, ix[0], v)
    return z3.Store(m, ix[0], sto(rsel(m, ix[0]), ix[1:], v))


# definitions of named map versions (id of the constant -> ("store", map, key, value)
#  | ("ite", cond, map, map) | ("havoc", map, counter, [bases that may differ]))
DEFS = {}
_memo = {}
_keep = []      # keeps terms alive so that ids stay unique


def define(c, *d):
    DEFS[c.get_id()] = d
    _keep.append((c, d))
    _memo.clear()


def rsel(m, x):
    """select with syntactic resolution through stores, named versions, merges and frames"""
    key = (m.get_id(), x.get_id())
    r = _memo.get(key)
    if r is not None:
        return r
    r = _rsel(m, x)
    _memo[key] = r
    _keep.append((m, x))
    return r


def _rsel(m, x):
    while True:
        if z3.is_app_of(m, z3.Z3_OP_STORE):
            prev, k, v = m.arg(0), m.arg(1), m.arg(2)
        else:
            d = DEFS.get(m.get_id())
            if d is None:
                break
            if d[0] == "ite":
                p, q = rsel(d[2], x), rsel(d[3], x)
                if p.eq(q):
                    return p
                if not z3.is_array(p) and not has_bound(x):
                    return z3.If(d[1], p, q)
                break
            if d[0] == "havoc":
                if age(x) < d[2] and all(_distinct(x, y) for y in d[3]):
                    m = d[1]
                    continue
                break
            _, prev, k, v = d
        if k.eq(x):
            return v
        if _distinct(k, x):
            m = prev
            continue
        break
    return z3.Select(m, x)


BOUND = set(["row", "u", "b", "i", "k", "j", "q", "n", "m", "x", "y", "r", "s", "t", "a"])


def has_bound(t):
    """does t mention a variable reserved for quantifiers?"""
    key = ("hb", t.get_id())
    if key in _ages:
        return _ages[key]
    if z3.is_var(t):
        r = True
    elif z3.is_const(t):
        r = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in BOUND
    else:
        r = any(has_bound(c) for c in t.children())
    _ages[key] = r
    _keep.append(t)
    return r


_ages = {}
INF = 1 << 60


def age(t):
    """an allocation counter such that the object base t existed before every block
    allocated later than it (INF: unknown).  Based on the closed-heap invariant: a
    pointer held in a variable or in memory refers to something already allocated."""
    k = t.get_id()
    if k in _ages:
        return _ages[k]
    r = INF
    if z3.is_int_value(t):
        r = -1 if t.as_long() <= 0 else INF
    elif z3.is_const(t):
        n = t.decl().name()
        if "!" in n:
            r = int(n.rsplit("!", 1)[1])
        elif n.startswith("arg_"):
            r = -1
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        r = max(age(t.arg(1)), age(t.arg(2)))
    elif z3.is_app_of(t, z3.Z3_OP_SELECT):
        m = t.arg(0)
        while z3.is_app_of(m, z3.Z3_OP_SELECT):
            m = m.arg(0)
        if z3.is_const(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = m.decl().name()
            if "!" in n:
                r = int(n.rsplit("!", 1)[1])
            elif n.startswith("M_") and n.endswith("_0"):
                r = -1
    elif t.decl().name().startswith("emb_"):
        r = age(t.arg(0))
    _ages[k] = r
    _keep.append(t)
    return r


def is_new(t):
    return z3.is_const(t) and t.decl().name().startswith("new_") and "!" in t.decl().name()


def is_emb(t):
    return z3.is_app(t) and t.decl().name().startswith("emb_")


def _distinct(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() != b.as_long()
    if a.sort() != I:
        if z3.is_const(a) and z3.is_const(b) and not a.eq(b):
            return a.decl().name().startswith("str_") and b.decl().name().startswith("str_")
        return False
    ea, eb = is_emb(a), is_emb(b)
    if ea and eb:
        if not a.decl().eq(b.decl()):
            return True
        return _distinct(a.arg(0), b.arg(0)) or _distinct(a.arg(1), b.arg(1))
    for x, y, ey in ((a, b, eb), (b, a, ea)):
        if is_new(x):
            if ey or age(y) < age(x):
                return True
    if ea or eb:
        return z3.is_int_value(a) or z3.is_int_value(b)
    # x + c against x + d
    ca, cb = _split(a), _split(b)
    if ca is not None and cb is not None and ca[0].eq(cb[0]) and ca[1] != cb[1]:
        return True
    return False


def _split(t):
    if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2:
        if z3.is_int_value(t.arg(1)):
            return t.arg(0), t.arg(1).as_long()
        if z3.is_int_value(t.arg(0)):
            return t.arg(1), t.arg(0).as_long()
    if z3.is_app_of(t, z3.Z3_OP_SUB) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        return t.arg(0), -t.arg(1).as_long()
    return t, 0


# float operations
_fops = {}


def fop(name, n=2, rng=F):
    k = (name, n)
    if k not in _fops:
        _fops[k] = z3.Function(name, *([F] * n + [rng]))
    return _fops[k]


flt = z3.Function("flt", F, F, B)
fle = z3.Function("fle", F, F, B)
feq = z3.Function("feq", F, F, B)
i2f = z3.Function("i2f", I, F)
f2i = z3.Function("f2i", F, I)
d2f = z3.Function("d2f", F, F)
_flits = {}


def flit(v):
    v = float(v)
    if v not in _flits:
        _flits[v] = z3.Const("flit_%r" % v, F)
    return _flits[v]


def flit_val(t):
    for v, c in _flits.items():
        if c.eq(t):
            return v
    return None


# strings
EMPTY = z3.Const("str_empty", STR)
_slits = {"": EMPTY}
slen = z3.Function("slen", STR, I)
strunc = z3.Function("strunc", STR, I, STR)   # first n-1 characters
strcmpf = z3.Function("strcmpf", STR, STR, I)
LIT = z3.Function("LIT", I, STR)
schar = z3.Function("schar", STR, I, I)


def slit(s):
    if s not in _slits:
        _slits[s] = z3.Const("str_%s" % "".join(c if c.isalnum() else "_%x" % ord(c) for c in s)[:60] + "_%d" % len(_slits), STR)
    return _slits[s]


_slitbase = {}


def slit_base(s):
    if s not in _slitbase:
        _slitbase[s] = -(len(_slitbase) + 2)
    return z3.IntVal(_slitbase[s])


# embedded objects
tag = z3.Function("tag", I, I)
invb = z3.Function("invb", I, I)
invi = z3.Function("invi", I, I)
_emb = {}


def emb(field, b, i):
    if field not in _emb:
        _emb[field] = (z3.Function("emb_" + field, I, I, I), len(_emb) + 1)
    return _emb[field][0](b, i)


def emb_tag(field):
    emb(field, ZERO, ZERO)
    return _emb[field][1]


# counting: number of k in [0,n) with a[k] true
CNT = z3.Function("CNT", z3.ArraySort(I, B), I, I)
WIT = z3.Function("WIT", z3.ArraySort(I, B), I, I)      # some index below n where the array holds, if there is one
EQC = z3.Function("EQC", z3.ArraySort(I, B), z3.ArraySort(I, B), I, B)   # both arrays hold equally often below n
WITD = z3.Function("WITD", z3.ArraySort(I, B), z3.ArraySort(I, B), I, I)  # if not, an index below n where they differ
NZ = z3.Function("NZ", z3.ArraySort(I, I), z3.ArraySort(I, B))     # elementwise "is not zero"
MUL = z3.Function("MUL", I, I, I)

OPAQUE_AXIOM_CACHE = {}


def background(cfg={}):
    """axioms: (list) independent of the program"""
    ax = []
    b, i, x, y, n, m = z3.Ints("b i x y n m")
    for f, (fn, t) in list(_emb.items()):
        e = fn(b, i)
        ax.append(z3.ForAll([b, i], z3.And(tag(e) == t, invb(e) == b, invi(e) == i), patterns=[e]))
    ax.append(tag(ZERO) == 0)      # the null pointer is not the address of a member
    p, q = z3.Consts("p q", F)
    for (nm, k), fn in list(_fops.items()):
        if k == 2 and (nm.startswith("fadd") or nm.startswith("fmul")):
            ax.append(z3.ForAll([p, q], fn(p, q) == fn(q, p), patterns=[fn(p, q)]))
    ax.append(z3.ForAll([p, q], feq(p, q) == feq(q, p), patterns=[feq(p, q)]))
    for nm in ("fsub_double", "fsub_float"):
        if (nm, 2) in _fops and ("ffabs", 1) in _fops:      # |p - q| = |q - p| (IEEE: the two differences differ in sign only)
            e = _fops[("ffabs", 1)](_fops[(nm, 2)](p, q))
            ax.append(z3.ForAll([p, q], e == _fops[("ffabs", 1)](_fops[(nm, 2)](q, p)), patterns=[e]))
    # IEEE comparisons: asymmetric, consistent (not total: NaN)
    ax.append(z3.ForAll([p, q], z3.Implies(fle(p, q), z3.Not(flt(q, p))), patterns=[fle(p, q)]))
    ax.append(z3.ForAll([p, q], z3.Implies(flt(p, q), z3.And(fle(p, q), z3.Not(flt(q, p)))), patterns=[flt(p, q)]))
    if cfg.get("order"):
        r = z3.Const("r", F)
        ax.append(z3.ForAll([p, q, r], z3.Implies(z3.And(flt(p, q), flt(q, r)), flt(p, r)), patterns=[z3.MultiPattern(flt(p, q), flt(q, r))]))
    s, t = z3.Consts("s t", STR)
    lits = list(_slits.values())
    if len(lits) > 1:
        ax.append(z3.Distinct(*lits))
    ax.append(z3.ForAll([s], z3.And(slen(s) >= 0, (slen(s) == 0) == (s == EMPTY)), patterns=[slen(s)]))
    for v, c in _slits.items():
        ax.append(slen(c) == len(v.encode()))
    for v, k in _slitbase.items():
        ax.append(LIT(k) == slit(v))
        ax.append(tag(z3.IntVal(k)) == 0)
    ax.append(z3.ForAll([s, n], z3.And(z3.Implies(slen(s) < n, strunc(s, n) == s),
                                       z3.Implies(n > 0, slen(strunc(s, n)) < n)), patterns=[strunc(s, n)]))
    ax.append(z3.ForAll([s, t], (strcmpf(s, t) == 0) == (s == t), patterns=[strcmpf(s, t)]))
    ax.append(z3.ForAll([s], (schar(s, ZERO) == 0) == (s == EMPTY), patterns=[schar(s, ZERO)]))
    a = z3.Const("a", z3.ArraySort(I, B))
    # CNT definition and inductive consequences (the latter proved in lemmas.py)
    ax.append(z3.ForAll([a, n], z3.Implies(n <= 0, CNT(a, n) == 0), patterns=[CNT(a, n)]))
    ax.append(z3.ForAll([a, n], z3.Implies(n > 0, CNT(a, n) == CNT(a, n - 1) + z3.If(a[n - 1], 1, 0)),
                        patterns=[z3.MultiPattern(CNT(a, n), UNF(n))]))
    ax.append(z3.ForAll([a, n], z3.And(CNT(a, n) >= 0, z3.Implies(n >= 0, CNT(a, n) <= n)), patterns=[CNT(a, n)]))
    ax.append(z3.ForAll([a, n, m], z3.Implies(z3.And(0 <= n, n < m), z3.And(
        CNT(a, n) <= CNT(a, m), z3.Implies(a[n], CNT(a, n) < CNT(a, m)))),
        patterns=[z3.MultiPattern(CNT(a, n), CNT(a, m))]))
    if cfg.get("cntwit"):
        ax.append(z3.ForAll([a, n], z3.Implies(CNT(a, n) > 0, z3.And(0 <= WIT(a, n), WIT(a, n) < n, a[WIT(a, n)])), patterns=[CNT(a, n)]))
    a2 = z3.Const("a2", z3.ArraySort(I, B))
    w = WITD(a, a2, n)
    ax.append(z3.ForAll([a, a2, n], z3.And(EQC(a, a2, n) == (CNT(a, n) == CNT(a2, n)),
                                           z3.Or(EQC(a, a2, n), z3.And(0 <= w, w < n, a[w] != a2[w]))), patterns=[EQC(a, a2, n)]))
    row = z3.Const("row", z3.ArraySort(I, I))
    ax.append(z3.ForAll([row, n], NZ(row)[n] == (row[n] != 0), patterns=[NZ(row)[n], z3.MultiPattern(NZ(row), row[n])]))
    ax.append(z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]))
    ax.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0), MUL(x, y) >= 0), patterns=[MUL(x, y)]))
    ax.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 1, y >= 1), z3.And(MUL(x, y) >= x, MUL(x, y) >= y)), patterns=[MUL(x, y)]))
    ax.append(z3.ForAll([x, y, n], z3.Implies(z3.And(0 <= x, x < y, n >= 0), MUL(x, n) + n <= MUL(y, n)),
                        patterns=[z3.MultiPattern(MUL(x, n), MUL(y, n))]))
    return ax


UNF = z3.Function("UNF", I, B)   # trigger for unfolding CNT at n


_NOPAT = [False]


def FA(vs, body, *pats):
    """quantifier with explicit patterns (dropped when the formula is a goal: it is skolemised)"""
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if _NOPAT[0] or not pats:
        return z3.ForAll(vs, body)
    ps = [p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats]
    try:
        return z3.ForAll(vs, body, patterns=ps)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


class nopat:
    def __enter__(self):
        self.old = _NOPAT[0]
        _NOPAT[0] = True

    def __exit__(self, *a):
        _NOPAT[0] = self.old


def mk_solver(timeout, seed=1, **kw):
    s = z3.SimpleSolver()
    s.set("timeout", timeout * 4)          # safety net; the budget proper is Z3's
    s.set("rlimit", timeout * 2500)        # deterministic resource count, so that load does not change answers
    for k, v in dict(SOLVER_OPTS, **kw).items():
        s.set(k, v)
    s.set("random_seed", seed)
    return s


PORTFOLIO = [(1, {}), (3, {"relevancy": 2}), (5, {"arith.solver": 2}), (7, {"array.extensional": True, "phase_selection": 5}),
             (11, {"relevancy": 2, "case_split": 3}), (13, {"phase_selection": 0})]


def skolem_instances(facts, goal):
    """(negated skolemised goal, instances of the quantified facts at the goal's own
    skolem constants) - instances of facts are consequences of them, so adding them is sound"""
    guard = []
    g = goal
    while z3.is_app_of(g, z3.Z3_OP_IMPLIES):
        guard.append(g.arg(0))
        g = g.arg(1)
    if not (z3.is_quantifier(g) and g.is_forall()):
        return [z3.Not(goal)]
    sk = [z3.Const("sk_%s" % g.var_name(k), g.var_sort(k)) for k in range(g.num_vars())]
    names = {g.var_name(k): sk[k] for k in range(g.num_vars())}
    out = guard + [z3.Not(z3.substitute_vars(g.body(), *reversed(sk)))]
    for f in facts:
        pre, q = None, f
        if z3.is_app_of(q, z3.Z3_OP_IMPLIES):
            pre, q = q.arg(0), q.arg(1)
        if z3.is_quantifier(q) and q.is_forall():
            vs = [names.get(q.var_name(k)) for k in range(q.num_vars())]
            if any(v is None for v in vs) or any(v.sort() != q.var_sort(k) for k, v in enumerate(vs)):
                continue
            b = z3.substitute_vars(q.body(), *reversed(vs))
            out.append(b if pre is None else z3.Implies(pre, b))
    return out


def pmap(fn, n, nproc=8, minper=3):
    """[fn(0..n-1)] computed in forked children (results must be picklable)"""
    import os, pickle
    nproc = min(nproc, n // minper)
    if nproc < 2:
        return [fn(k) for k in range(n)]
    pipes = []
    for w in range(nproc):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = [(k, fn(k)) for k in range(w, n, nproc)]
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            except BaseException:
                os._exit(1)
        os.close(wr)
        pipes.append((pid, r))
    res = [None] * n
    bad = False
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            for k, v in pickle.loads(data):
                res[k] = v
        except Exception:
            bad = True
    if bad:
        res = [fn(k) if v is None else v for k, v in enumerate(res)]
    return res


SLOTS = None      # semaphore limiting how many solvers run at once (set by the driver)
_VM = {}
_WINS = {}        # strategies that worked recently are tried first


def value_maps(f):
    """(record-field and numeric heap maps that formula f mentions, is there a quantifier in it)"""
    k = f.get_id()
    if k in _VM:
        return _VM[k][1]
    names, quant, seen, stack = set(), False, set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            quant = True
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name().split("!")[0]
                n = n[2:] if n.startswith("M_") else n
                if ("_record." in n or n in ("H:double", "H:float", "H:complex")) and n[1:2] == ":":
                    names.add(n[:-2] if n.endswith((".b", ".i")) else n)
            stack.extend(x.children())
    _VM[k] = (f, (frozenset(names), quant))
    return _VM[k][1]


def flat(l):
    out = []
    for x in l:
        if z3.is_and(x):
            out += flat(x.children())
        else:
            out.append(x)
    return out


def split_conditions(assertions, n=1):
    """conditions of the most recent joins of two paths (from the definitions of the joined maps)"""
    out, ids = [], set()
    for f in reversed(assertions):
        if z3.is_eq(f) and z3.is_app_of(f.arg(1), z3.Z3_OP_ITE) and z3.is_array(f.arg(0)):
            c = f.arg(1).arg(0)
            if c.get_id() not in ids:
                ids.add(c.get_id())
                out.append(c)
                if len(out) >= n:
                    break
    return out


RICH = False        # more strategies per query (long record contracts)


def solve(assertions, timeout, tries=None, goal=None, giveup=False):
    """solve_1, then (when undecided) by cases on the last condition where paths were joined"""
    t0 = time.time()
    r = solve_1(assertions, timeout, tries, goal, giveup)
    if os.environ.get("VCG_DUMPSLOW") and time.time() - t0 > float(os.environ["VCG_DUMPSLOW"]):
        for nm, h in (("all", flat(assertions)), ("sub", [x for x in flat(assertions) if goal is None or not value_maps(x)[1] or
                                                       value_maps(x)[0] <= value_maps(goal)[0]])):
            s = z3.SimpleSolver()
            s.add(h)
            open("/tmp/slow_%d_%d_%s.smt2" % (time.time() - t0, os.getpid(), nm), "w").write(s.to_smt2())
    if r[0] == z3.unsat:
        return r
    cs = split_conditions(flat(assertions), 1)
    for c in cs:
        for case in (c, z3.Not(c)):
            q = solve_1(list(assertions) + [case], timeout // 2, 1, goal, True)
            if q[0] != z3.unsat:
                return r
        return z3.unsat, "z3[by cases]", q[2]
    return r


def solve_1(assertions, timeout, tries=None, goal=None, giveup=False):
    """portfolio of seeds/strategies of the same solver; any unsat answer is a proof.
    With a goal: first try without the quantified hypotheses about record fields the
    goal does not mention (dropping hypotheses is sound)"""
    runs = []
    if goal is not None:
        want = value_maps(goal)[0]
        fl = flat(assertions)
        sub = [x for x in fl if not value_maps(x)[1] or value_maps(x)[0] <= want]
        strict = sub if not RICH else [x for x in fl if value_maps(x)[0] <= want or (not value_maps(x)[1] and value_maps(x)[0] & want)]
        if len(strict) < len(sub):
            for seed in (1, 4):
                runs.append(("z3[strictly relevant hypotheses, phase 0, seed %d]" % seed, seed, {"relevancy": 2, "phase_selection": 0}, strict))
                runs.append(("z3[strictly relevant hypotheses, case split 3, seed %d]" % seed, seed, {"relevancy": 2, "case_split": 3}, strict))
        if len(sub) < len(fl):
            runs.append(("z3[relevant hypotheses]", 1, {}, sub))
            for seed in (1, 6) if RICH else ():
                runs.append(("z3[relevant hypotheses, phase 0, seed %d]" % seed, seed, {"relevancy": 2, "phase_selection": 0}, sub))
                runs.append(("z3[relevant hypotheses, case split 3, seed %d]" % seed, seed, {"relevancy": 2, "case_split": 3}, sub))
            runs.append(("z3[relevant hypotheses, relevancy 2]", 3, {"relevancy": 2}, sub))
    for k, (seed, kw) in enumerate(PORTFOLIO[:tries]):
        runs.append(("z3" if k == 0 else "z3[strategy %d]" % k, seed, kw, assertions))
    s0, why = None, ""
    first = sorted(runs[:11] if RICH and len(runs) > 6 else runs[:5], key=lambda r: -_WINS.get(r[0], 0))
    rounds = ((max(400, timeout // 30), first),) + (((max(700, timeout // 12), first),) if RICH else ()) + \
        ((max(1000, timeout // 6), first), (max(1500, timeout // 3), runs), (timeout, runs[:2]))
    gaveup = set()
    for t, rs in rounds:
        for name, seed, kw, hyps in rs:
            if name in gaveup:
                continue
            s = mk_solver(t, seed, **kw)
            s.add(hyps)
            if SLOTS is not None:
                SLOTS.acquire()
            try:
                res = s.check()
            finally:
                if SLOTS is not None:
                    SLOTS.release()
            if res == z3.unsat:
                for w in _WINS:
                    _WINS[w] *= 0.9
                _WINS[name] = _WINS.get(name, 0) + 1
                return res, name, s
            r = s.reason_unknown() if res == z3.unknown else "sat"
            if "cancel" not in r and "timeout" not in r and "resource" not in r:
                gaveup.add(name)        # saturated: more time will not help
                if giveup and len([g for g in gaveup if "hyp" not in g]) >= 2:
                    return z3.unknown, r, s
            if name == "z3" and not (s0 is not None and "cancel" in r):
                s0, why = s, r
    return z3.unknown, why, s0


# plain e-matching: no model-based instantiation, and no preprocessing that would
# substitute definitions into trigger patterns
SOLVER_OPTS = {"mbqi": False, "auto_config": False, "solve_eqs": False, "elim_unconstrained": False,
               "propagate_values": False, "bound_simplifier": False, "array.extensional": False, "relevancy": 0}


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("pc", "env", "heap", "dead", "ghost", "alts")

    def __init__(self):
        self.pc, self.env, self.heap, self.dead, self.ghost = [], {}, {}, False, {}
        self.alts = None       # ([states this one was merged from], snapshot at merge time)

    def paths(self):
        """the states this one was merged from, if it has not changed since; else itself"""
        if self.alts is not None:
            l, pc, env, heap = self.alts
            if len(pc) == len(self.pc) and all(x is y for x, y in zip(pc, self.pc)) and env.keys() == self.env.keys() and \
                    heap.keys() == self.heap.keys() and all(env[k] is self.env[k] for k in env) and all(heap[k] is self.heap[k] for k in heap):
                return l
        return [self]

    def snap(self, l):
        if len(l) <= 10:
            self.alts = (l, list(self.pc), dict(self.env), dict(self.heap))
        return self

    def copy(self):
        s = State()
        s.pc, s.env, s.heap, s.dead = list(self.pc), dict(self.env), dict(self.heap), self.dead
        s.ghost = dict(self.ghost)
        return s


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.b.eq(b.b) and a.i.eq(b.i)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return samelv(a.lv, b.lv)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if isinstance(a, Multi) and isinstance(b, Multi):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    return False


def samelv(a, b):
    if a.k != b.k or len(a.a) != len(b.a):
        return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, LV):
            if not isinstance(y, LV) or not samelv(x, y):
                return False
        elif isinstance(x, z3.ExprRef):
            if not isinstance(y, z3.ExprRef) or not x.eq(y):
                return False
        elif x != y:
            return False
    return True


class Obligation:
    __slots__ = ("name", "kind", "fn", "line", "facts", "goal", "status", "time", "backend", "detail", "prop")

    def __init__(self, name, kind, fn, line, facts, goal):
        self.name, self.kind, self.fn, self.line, self.facts, self.goal = name, kind, fn, line, facts, goal
        self.status, self.time, self.backend, self.detail = None, 0.0, None, ""


SORTS = {"int": I, "float": F, "complex": F}


class Exec:
    def __init__(self, tu, lib, specs=None, config=None):
        self.tu, self.lib, self.specs = tu, lib, specs or {}
        self.cfg = config or {}
        self.facts = []
        self.bgfacts = []     # facts about the initial heap
        self.obls = []
        self.st = None
        self.frame = 0
        self.frames = itertools.count(1)
        self.fnstack = []
        self.dry = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.asserted = 0
        self.templates = []
        self.ctx = None
        self.inv_log = []
        self.solver_time = 0.0
        self.nqueries = 0
        self.mods = None
        self.timeout = self.cfg.get("timeout", 10000)
        self.strfields = self.cfg.get("strfields", [])
        self.uninit = {}
        self.init_heap = {}
        self.init_facts_for = {}
        self.loop_count = 0
        self.curline = None
        self.sat_cache = {}
        self.ptrtypes = {}
        self.localdecls = set()
        self.next0 = z3.Int("NEXT_0")

    # ------------------------------------------------------------ facts / obligations
    def assume(self, f, guard=True):
        if guard and self.st is not None and self.st.pc:
            f = z3.Implies(conj(self.st.pc), f)
        self.facts.append(f)

    def oblige(self, kind, goal, what=""):
        if self.dry or (self.st is not None and self.st.dead):
            return
        if z3.is_true(z3.simplify(goal)) if isinstance(goal, z3.ExprRef) and kind == "mem" else False:
            return
        fn = self.fnstack[-1] if self.fnstack else "?"
        pc = conj(self.st.pc)
        name = "%s:%s:%s" % (fn, kind, what)
        o = Obligation(name, kind, fn, self.curline, (list(self.facts), pc), goal)
        self.obls.append(o)
        # after checking, assume it (ground safety conditions only)
        if kind not in ("post", "frame", "pre"):
            self.assume(goal)

    # ------------------------------------------------------------ heap maps
    def hget(self, st, name):
        if name not in st.heap:
            m = self.init_map(name)
            st.heap[name] = m
        return st.heap[name]

    def init_map(self, name):
        if name not in self.init_heap:
            self.init_heap[name] = z3.Const("M_" + name + "_0", self.map_sort(name))
            if name.endswith(".b") and name not in ("LDb", "HVb"):
                # closed heap: stored pointers refer to objects that exist initially
                b, i = z3.Ints("b i")
                m = self.init_heap[name]
                s = self.map_sort(name).range().range()
                if s == I:
                    self.bgfacts.append(z3.ForAll([b, i], sel(m, b, i) < self.next0, patterns=[sel(m, b, i)]))
            if name in ("LDb", "HVb"):
                k = z3.Const("k", I if name == "LDb" else STR)
                b = z3.Int("b")
                m = self.init_heap[name]
                self.bgfacts.append(z3.ForAll([b, k], sel(m, b, k) < self.next0, patterns=[sel(m, b, k)]))
            if name == "Own":
                b = z3.Int("b")
                m = self.init_heap[name]
                self.bgfacts.append(z3.ForAll([b], invb(m[b]) < self.next0, patterns=[m[b]]))
            if name == "LLen":
                self.bgfacts.append(self.init_heap[name][0] == 0)
            if name.startswith("F:"):
                t = self.fieldty(*name[2:].rsplit(".", 1)) if not name.endswith((".b", ".i")) else None
                if t is not None and self.is_str(t):
                    # char arrays hold NUL-terminated strings (precondition on inputs)
                    b, i = z3.Ints("b i")
                    m = self.init_heap[name]
                    self.bgfacts.append(z3.ForAll([b, i], slen(sel(m, b, i)) < t.n, patterns=[sel(m, b, i)]))
        return self.init_heap[name]

    def map_sort(self, name):
        if name == "Len" or name == "LLen":
            return A(I, I)
        if name == "S":
            return A(I, STR)
        if name == "Own":
            return A(I, I)
        if name in ("LDb", "LDi"):
            return A(I, I, I)
        if name == "HHas":
            return A(I, STR, B)
        if name in ("HVb", "HVi"):
            return A(I, STR, I)
        if name.startswith("G:"):     # ghost
            return self.cfg["ghost_sorts"][name]
        if name.startswith("H:"):
            t = name[2:]
            if t.endswith(".b") or t.endswith(".i"):
                return A(I, I, I)
            return A(I, I, SORTS["float" if t in ("float", "double", "complex float", "complex double") else "int"])
        if name.startswith("F:"):
            sf = name[2:]
            if sf.endswith(".b") or sf.endswith(".i"):
                sf2 = sf[:-2]
                t = self.fieldty(*sf2.rsplit(".", 1))
                if t is not None:
                    if t.kind == "arr":
                        return A(I, I, I, I)
                    return A(I, I, I)
            t = self.fieldty(*sf.rsplit(".", 1))
            return A(I, I, self.valsort(t))
        raise KeyError(name)

    def fieldty(self, s, f):
        for n, t in self.tu.records.get(s, ()):
            if n == f:
                return self.tu.ty(t)
        return None

    def valsort(self, t):
        if t.kind in SORTS:
            return SORTS[t.kind]
        if t.kind == "arr":
            if t.to.kind == "int" and t.to.name in ("char",):
                return STR
            return z3.ArraySort(I, self.valsort(t.to))
        raise Unsupported("valsort %r" % t)

    def is_str(self, t):
        return t.kind == "arr" and t.to.kind == "int" and t.to.name == "char"

    # ------------------------------------------------------------ load / store
    def note_write(self, name, b, i=None):
        if self.mods is not None:
            self.mods.append((name, b, i))

    def setmap(self, st, name, ix, v):
        m = self.hget(st, name)
        self.note_write(name, ix[0], ix[1] if len(ix) > 1 else None)
        t = sto(m, ix, v)
        c = fresh("M_" + name, m.sort())
        self.facts.append(c == t)
        define(c, "store", m, ix[0], t.arg(2))
        st.heap[name] = c

    def load(self, lv, st=None):
        st = st or self.st
        t = lv.ty
        if lv.k == "var":
            key = lv.a[0]
            if key not in st.env:
                st.env[key] = self.fresh_val("u_%s" % (key[-1],), t)
            return st.env[key]
        if lv.k == "field":
            s, f, b, i = lv.a
            return self.ld("F:%s.%s" % (s, f), t, (b, i), st)
        if lv.k == "heap":
            tk, b, i = lv.a
            return self.ld("H:" + tk, t, (b, i), st)
        if lv.k == "elem":
            base, idx = lv.a
            av = self.load(base, st)
            if isinstance(av, tuple):
                return Ptr(sel(av[0], idx), sel(av[1], idx))
            if av.sort() == STR:
                return schar(av, idx)
            return sel(av, idx)
        if lv.k == "str":
            return self.str_at(Ptr(lv.a[0]), st)
        if lv.k == "data":
            return Ptr(rsel(rsel(self.hget(st, "LDb"), lv.a[0]), lv.a[1]), rsel(rsel(self.hget(st, "LDi"), lv.a[0]), lv.a[1]))
        if lv.k == "fn":
            return lv.a[0]
        raise Unsupported("load " + lv.k)

    def ld(self, name, t, ix, st):
        if t.kind == "ptr":
            return Ptr(self.rs(self.hget(st, name + ".b"), *ix), self.rs(self.hget(st, name + ".i"), *ix))
        if t.kind == "arr" and t.to.kind == "ptr":
            return (self.rs(self.hget(st, name + ".b"), *ix), self.rs(self.hget(st, name + ".i"), *ix))
        return self.rs(self.hget(st, name), *ix)

    def rs(self, m, *ix):
        for x in ix:
            m = rsel(m, x)
        return m

    def store(self, lv, v, st=None):
        st = st or self.st
        t = lv.ty
        if lv.k == "var":
            st.env[lv.a[0]] = v
            return
        if lv.k == "field":
            s, f, b, i = lv.a
            return self.sv("F:%s.%s" % (s, f), t, (b, i), v, st)
        if lv.k == "heap":
            tk, b, i = lv.a
            return self.sv("H:" + tk, t, (b, i), v, st)
        if lv.k == "elem":
            base, idx = lv.a
            av = self.load(base, st)
            if isinstance(av, tuple):
                p = self.to_ptr(v)
                return self.store(base, (z3.Store(av[0], idx, p.b), z3.Store(av[1], idx, p.i)), st)
            if av.sort() == STR:
                v = self.as_int(v)
                if z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0:
                    if z3.is_int_value(idx) and idx.as_long() == 0:
                        return self.store(base, EMPTY, st)
                    # terminator at idx: contents truncated to idx characters
                    return self.store(base, strunc(av, idx + 1), st)
                nv = fresh("strupd", STR)
                return self.store(base, nv, st)
            return self.store(base, z3.Store(av, idx, self.coerce_elem(v, base.ty.to)), st)
        if lv.k == "str":
            return self.setmap(st, "S", (lv.a[0],), v)
        if lv.k == "data":
            p = self.to_ptr(v)
            self.setmap(st, "LDb", lv.a, p.b)
            self.setmap(st, "LDi", lv.a, p.i)
            return
        raise Unsupported("store " + lv.k)

    def coerce_elem(self, v, t):
        if t.kind == "int":
            return self.as_int(v)
        return v

    def sv(self, name, t, ix, v, st):
        if t.kind == "ptr":
            p = self.to_ptr(v)
            self.setmap(st, name + ".b", ix, p.b)
            self.setmap(st, name + ".i", ix, p.i)
            if self.cfg.get("own") and name.startswith("F:") and not z3.is_int_value(p.b) and "_G" not in (t.to.name or ""):
                self.setmap(st, "Own", (p.b,), emb(name[2:], *ix))
            return
        if t.kind == "arr" and t.to.kind == "ptr":
            self.setmap(st, name + ".b", ix, v[0])
            self.setmap(st, name + ".i", ix, v[1])
            return
        if t.kind == "int":
            v = self.as_int(v)
        if isinstance(v, Poison):
            v = fresh("poison", self.valsort(t))
        self.setmap(st, name, ix, v)

    def to_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Multi):
            r = self.to_ptr(v.alts[-1][1])
            for c, x in reversed(v.alts[:-1]):
                x = self.to_ptr(x)
                r = Ptr(z3.If(c, x.b, r.b), z3.If(c, x.i, r.i))
            return r
        if isinstance(v, Ref):
            lv = v.lv
            if lv.k == "field" and self.is_str(lv.ty):
                s, f, b, i = lv.a
                return Ptr(emb("%s.%s" % (s, f), b, i), ZERO)
            if lv.k == "heap":
                return Ptr(lv.a[1], lv.a[2])
            if lv.k == "str":
                return Ptr(lv.a[0], ZERO)
            if lv.k == "elem" and z3.is_int_value(lv.a[1]) and lv.a[1].as_long() == 0:
                # inline numeric array: address object
                inner = lv.a[0]
                if inner.k == "field":
                    s, f, b, i = inner.a
                    return Ptr(emb("%s.%s" % (s, f), b, i), ZERO)
            if lv.k == "var":
                # address of a local escaping: unique constant base
                return Ptr(z3.Const("addr_%s" % "_".join(map(str, lv.a[0])), I), ZERO)
            raise Unsupported("flatten %r" % (v,))
        if isinstance(v, FnPtr):
            return Ptr(z3.Const("fn_" + v.name, I), ZERO)
        if isinstance(v, z3.ExprRef):
            if v.sort() == I and z3.is_int_value(v) and v.as_long() == 0:
                return NULL
            if v.sort() == I:
                return Ptr(v, ZERO)     # GINT_TO_POINTER
        if isinstance(v, Poison):
            return Ptr(fresh("pz", I), fresh("pz", I))
        raise Unsupported("to_ptr %r" % (v,))

    def str_at(self, p, st=None):
        """string contents at pointer p"""
        st = st or self.st
        if isinstance(p, Multi):
            r = self.str_at(p.alts[-1][1], st)
            for c, x in reversed(p.alts[:-1]):
                r = z3.If(c, self.str_at(x, st), r)
            return r
        if isinstance(p, Ref):
            v = self.load(p.lv, st)
            if isinstance(v, z3.ExprRef) and v.sort() == STR:
                return v
            raise Unsupported("string at %r" % (p,))
        p = self.to_ptr(p)
        if z3.is_int_value(p.b) and p.b.as_long() < 0:
            for s, k in _slitbase.items():
                if k == p.b.as_long():
                    return slit(s)
        if z3.is_app(p.b) and p.b.decl().name().startswith("emb_"):
            sf = p.b.decl().name()[4:]
            s, f = sf.rsplit(".", 1)
            return self.ld("F:" + sf, self.fieldty(s, f), (p.b.arg(0), p.b.arg(1)), st)
        if z3.is_app_of(p.b, z3.Z3_OP_ITE):
            return z3.If(p.b.arg(0), self.str_at(Ptr(p.b.arg(1)), st), self.str_at(Ptr(p.b.arg(2)), st))
        r = z3.If(p.b < 0, LIT(p.b), self.rs(self.hget(st, "S"), p.b))
        for sf in self.strfields:
            s, f = sf.rsplit(".", 1)
            r = z3.If(tag(p.b) == emb_tag(sf),
                      self.ld("F:" + sf, self.fieldty(s, f), (invb(p.b), invi(p.b)), st), r)
        return r

    # ------------------------------------------------------------ fresh values
    def fresh_val(self, name, t):
        if t.kind == "int":
            return fresh(name, I)
        if t.kind in ("float", "complex"):
            return fresh(name, F)
        if t.kind == "ptr":
            return Ptr(fresh(name + ".b", I), fresh(name + ".i", I))
        if t.kind == "arr":
            if self.is_str(t):
                return fresh(name, STR)
            if t.to.kind == "ptr":
                return (fresh(name + ".b", A(I, I)), fresh(name + ".i", A(I, I)))
            if t.to.kind == "arr":
                return fresh(name, A(I, self.valsort(t.to)))
            if t.to.kind == "struct":
                return Poison("array of struct")
            return fresh(name, z3.ArraySort(I, self.valsort(t.to)))
        if t.kind == "struct":
            return self.new_object(sizeof(self.tu, t), name)
        return Poison(repr(t))

    def new_object(self, nbytes, name="obj"):
        """allocate a fresh object; returns base"""
        st = self.st
        nx = st.heap["NEXT"]
        b = fresh("new_" + name, I)
        n2 = fresh("NEXT", I)
        self.facts.append(z3.And(b >= nx, b > 0, tag(b) == 0, n2 == b + 1))
        st.heap["NEXT"] = n2
        if nbytes is not None:
            self.setmap(st, "Len", (b,), nbytes if isinstance(nbytes, z3.ExprRef) else z3.IntVal(nbytes))
        return b

    # ------------------------------------------------------------ conversions
    def as_int(self, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == B:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == I:
                return v
            if v.sort() == F:
                return f2i(v)
        if isinstance(v, Ptr):
            return v.b + v.i
        if isinstance(v, Poison):
            return fresh("poison", I)
        raise Unsupported("as_int %r" % (v,))

    def as_bool(self, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == B:
                return v
            if v.sort() == I:
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                    a, b = v.arg(1).as_long(), v.arg(2).as_long()
                    if a and not b:
                        return v.arg(0)
                    if b and not a:
                        return z3.Not(v.arg(0))
                if z3.is_int_value(v):
                    return z3.BoolVal(v.as_long() != 0)
                return v != 0
            if v.sort() == F:
                return z3.Not(feq(v, flit(0.0)))
        if isinstance(v, Ptr):
            return z3.Not(self.is_null(v))
        if isinstance(v, (Ref, FnPtr)):
            return v.c if isinstance(v, Ref) and v.c is not None else TRUE
        if isinstance(v, Multi):
            r = self.as_bool(v.alts[-1][1])
            for c, x in reversed(v.alts[:-1]):
                r = z3.If(c, self.as_bool(x), r)
            return r
        if isinstance(v, Poison):
            return fresh("poison", B)
        raise Unsupported("as_bool %r" % (v,))

    def is_null(self, p):
        if isinstance(p, (Ref, FnPtr)):
            return z3.Not(p.c) if isinstance(p, Ref) and p.c is not None else FALSE
        p = self.to_ptr(p)
        if z3.is_int_value(p.b):
            return z3.BoolVal(p.b.as_long() == 0)
        return p.b == 0

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, hint=""):
        if same(a, b):
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                a, b = self.as_int(a), self.as_int(b)
            return z3.If(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Poison):
            return b
        if isinstance(b, Poison):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return Ptr(a.b if a.b.eq(b.b) else z3.If(c, a.b, b.b), a.i if a.i.eq(b.i) else z3.If(c, a.i, b.i))
        if isinstance(a, (Ptr, Ref, FnPtr, Multi)) and isinstance(b, (Ptr, Ref, FnPtr, Multi)):
            alts = []
            la = a.alts if isinstance(a, Multi) else [(TRUE, a)]
            lb = b.alts if isinstance(b, Multi) else [(TRUE, b)]
            for cc, x in la:
                alts.append((z3.And(c, cc), x))
            alts += lb
            return Multi(alts)
        if isinstance(a, (Ptr, Ref, Multi)) or isinstance(b, (Ptr, Ref, Multi)):
            return self.merge_val(c, self.to_ptr(a), self.to_ptr(b))
        raise Unsupported("merge %r %r" % (a, b))

    def merge(self, a, b):
        if a is None or a.dead:
            return b if b is not None and not b.dead else None
        if b is None or b.dead:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        s = State()
        s.pc = list(a.pc[:n])
        ca, cb = conj(ra), conj(rb)
        if not ra or not rb:
            pass  # one path subsumes syntactically (should not happen for exclusive paths)
        elif len(ra) == 1 and len(rb) == 1 and z3.simplify(z3.Not(ra[0])).eq(z3.simplify(rb[0])):
            pass
        elif ra and rb and z3.simplify(z3.Not(ra[0])).eq(z3.simplify(rb[0])):
            # complementary first conjunct: disjunction of implications is simpler
            xa, xb = conj(ra[1:]), conj(rb[1:])
            s.pc.append(z3.simplify(z3.If(ra[0], xa, xb)) if False else z3.And(z3.Implies(ra[0], xa), z3.Implies(rb[0], xb)))
        else:
            s.pc.append(z3.Or(ca, cb))
        sel_c = ca
        if ra and rb and z3.simplify(z3.Not(ra[0])).eq(z3.simplify(rb[0])):
            sel_c = ra[0]
        for k in a.env:
            if k in b.env:
                s.env[k] = self.merge_val(sel_c, a.env[k], b.env[k])
            else:
                s.env[k] = a.env[k]
        for k in b.env:
            if k not in a.env:
                s.env[k] = b.env[k]
        for k in set(a.heap) | set(b.heap):
            va = a.heap.get(k)
            vb = b.heap.get(k)
            if va is None:
                va = self.init_map(k)
            if vb is None:
                vb = self.init_map(k)
            s.heap[k] = va if va.eq(vb) else self.name_merge(k, sel_c, va, vb)
        for k in set(a.ghost) | set(b.ghost):
            va, vb = a.ghost.get(k), b.ghost.get(k)
            s.ghost[k] = va if va is vb else (va if vb is None else vb)
        return s

    def name_merge(self, k, c, va, vb):
        if k == "NEXT":
            n = fresh("NEXT", I)
            self.facts.append(n == z3.If(c, va, vb))
            return n
        m = fresh("M_" + k, va.sort())
        self.facts.append(m == z3.If(c, va, vb))
        define(m, "ite", c, va, vb)
        return m

    # ------------------------------------------------------------ memory validity
    def valid(self, st, b, i, size):
        return z3.And(i >= 0, z3.Or(tag(b) != 0, (i + 1) * size <= rsel(self.hget(st, "Len"), b)))

    def check_access(self, p, size, what):
        if not self.cfg.get("memsafe", True):
            return
        if isinstance(p, Ptr):
            if z3.is_app(p.b) and p.b.decl().name().startswith("emb_"):
                return
            self.oblige("mem", z3.And(p.b != 0, self.valid(self.st, p.b, p.i, size)), what)

    # ------------------------------------------------------------ lvalues
    def key(self, decl):
        if decl.get("_static"):
            return ("g", decl["name"])
        return (self.frame, decl["id"], decl.get("name", "?"))

    def lval(self, n):
        k = n["kind"]
        self.setline(n)
        if k == "ParenExpr":
            return self.lval(n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            t = self.tu.ty(n["type"]["qualType"])
            key = (self.frame, d["id"], d["name"])
            if key in self.st.env or d["kind"] == "ParmVarDecl":
                return LV("var", (key,), t)
            if key in self.localdecls:
                return LV("var", (key,), t)
            if ("s", d["id"], d["name"]) in self.st.env:
                return LV("var", (("s", d["id"], d["name"]),), t)
            # global
            gk = ("g", 0, d["name"])
            if gk not in self.st.env:
                self.st.env[gk] = self.global_val(d["name"], t)
            return LV("var", (gk,), t)
        if k == "MemberExpr":
            base = n["inner"][0]
            t = self.tu.ty(n["type"]["qualType"])
            if n.get("isArrow"):
                p = self.ev(base)
                bt = self.tu.ty(base["type"]["qualType"]).to
            else:
                blv = self.lval_or_tmp(base)
                bt = self.tu.ty(base["type"]["qualType"])
                p = blv
            return self.member(p, bt, n["name"], t)
        if k == "ArraySubscriptExpr":
            a, ix = n["inner"]
            t = self.tu.ty(n["type"]["qualType"])
            p = self.ev(a)
            i = self.as_int(self.ev(ix))
            return self.index(p, i, t)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0])
            t = self.tu.ty(n["type"]["qualType"])
            return self.index(p, ZERO, t)
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "LValueBitCast"):
            return self.lval(n["inner"][0])
        if k == "StringLiteral":
            return LV("str", (slit_base(self.strlit(n)),), self.tu.ty(n["type"]["qualType"]))
        if k == "PredefinedExpr":
            return LV("str", (slit_base("__func__"),), self.tu.ty("char [10]"))
        raise Unsupported("lvalue %s" % k)

    def strlit(self, n):
        import ast
        v = n["value"]
        try:
            return ast.literal_eval(v)
        except Exception:
            return v

    def global_val(self, name, t):
        g = self.tu.globals.get(name)
        if t.kind == "arr" and t.to.kind == "ptr" and g is not None and g.get("inner"):
            # constant table of strings
            ini = [c for c in g["inner"] if c["kind"] == "InitListExpr"]
            if ini:
                a, b = z3.K(I, ZERO), z3.K(I, ZERO)
                for k, e in enumerate(ini[0].get("inner", [])):
                    v = self.to_ptr(self.ev(e))
                    a, b = z3.Store(a, k, v.b), z3.Store(b, k, v.i)
                return (a, b)
        if t.kind == "struct":
            return z3.Const("glob_" + name, I)
        if t.kind == "ptr":
            return Ptr(z3.Const("glob_%s.b" % name, I), z3.Const("glob_%s.i" % name, I))
        if t.kind == "int":
            return z3.Const("glob_" + name, I)
        return self.fresh_val("glob_" + name, t)

    def lval_or_tmp(self, n):
        """struct-typed expression -> Ptr to the object"""
        v = self.structptr(n)
        return v

    def structptr(self, n):
        k = n["kind"]
        if k == "ParenExpr":
            return self.structptr(n["inner"][0])
        if k == "ImplicitCastExpr" and n["castKind"] in ("LValueToRValue", "NoOp"):
            return self.structptr(n["inner"][0])
        if k == "CallExpr":
            v = self.ev(n)
            return v
        lv = self.lval(n)
        return self.lv_struct_ptr(lv)

    def lv_struct_ptr(self, lv):
        if isinstance(lv, Ptr):
            return lv
        if lv.k == "var":
            v = self.load(lv)
            return Ptr(v, ZERO) if isinstance(v, z3.ExprRef) else v
        if lv.k == "structat":
            return Ptr(lv.a[0], lv.a[1])
        raise Unsupported("struct lvalue %r" % lv)

    def member(self, p, bt, f, t):
        if isinstance(p, Multi):
            p = self.to_ptr(p)
        if isinstance(p, Ref):
            if p.lv.k == "var":
                v = self.load(p.lv)
                p = Ptr(v, ZERO)
            else:
                raise Unsupported("member of %r" % p)
        p = self.to_ptr(p)
        if bt.name in ("_GList", "struct _GList"):
            return self.glist_member(p, f, t)
        size = sizeof(self.tu, bt) if bt.name in self.tu.records else 1
        self.check_access(p, size, "access %s.%s" % (bt.name, f))
        if t.kind == "struct":
            return LV("structat", (emb("%s.%s" % (bt.name, f), p.b, p.i), ZERO), t)
        return LV("field", (bt.name, f, p.b, p.i), t)

    def glist_member(self, p, f, t):
        st = self.st
        self.oblige("mem", z3.And(p.b != 0, p.i >= 0, p.i < rsel(self.hget(st, "LLen"), p.b)), "access GList.%s" % f)
        if f == "data":
            return LV("data", (p.b, p.i), t)
        key = (self.frame, "tmp", next(_fresh))
        if f == "next":
            last = p.i + 1 >= rsel(self.hget(st, "LLen"), p.b)
            st.env[key] = Ptr(z3.If(last, ZERO, p.b), z3.If(last, ZERO, p.i + 1))
        elif f == "prev":
            st.env[key] = Ptr(z3.If(p.i == 0, ZERO, p.b), z3.If(p.i == 0, ZERO, p.i - 1))
        else:
            raise Unsupported("GList.%s" % f)
        return LV("var", (key,), t)

    def index(self, p, i, t):
        i = z3.simplify(i) if not z3.is_int_value(i) and z3.is_int_value(z3.simplify(i)) else i
        if isinstance(p, FnPtr):
            return LV("fn", (p,), t)
        if isinstance(p, Multi):
            p = self.to_ptr(p)
        if isinstance(p, Ref):
            lv = p.lv
            if p.c is not None:
                self.oblige("mem", p.c, "dereference of an optional pointer")
            if lv.k == "elem":
                base, k0 = lv.a
                idx = i if z3.is_int_value(k0) and k0.as_long() == 0 else k0 + i
                if base.ty.kind == "arr" and base.ty.n and not self.is_str(base.ty):
                    self.oblige("mem", z3.And(idx >= 0, idx < base.ty.n), "inline array index")
                return LV("elem", (base, idx), t)
            if self.is_str(lv.ty):
                if lv.ty.n:
                    self.oblige("mem", z3.And(i >= 0, i < lv.ty.n), "char array index")
                return LV("elem", (lv, i), t)
            if lv.k == "str":
                return LV("elem", (lv, i), t)
            if z3.is_int_value(i) and i.as_long() == 0:
                return lv
            raise Unsupported("index Ref")
        p = self.to_ptr(p)
        j = p.i if (z3.is_int_value(i) and i.as_long() == 0) else (i if z3.is_int_value(p.i) and p.i.as_long() == 0 else p.i + i)
        if t.kind == "struct":
            self.check_access(Ptr(p.b, j), sizeof(self.tu, t), "index %s" % t.name)
            return LV("structat", (p.b, j), t)
        if t.kind == "fn":
            return LV("fn", (p,), t)
        tk = "ptr" if t.kind == "ptr" else t.name
        if t.kind == "arr":
            raise Unsupported("heap array of arrays")
        if t.kind == "int" and t.name == "char" and self.strchar(p):
            return LV("elem", (LV("str", (p.b,), Ty("arr", to=t, n=0)), j), t)
        if z3.is_app(p.b) and p.b.decl().name().startswith("emb_"):
            sf = p.b.decl().name()[4:]
            s, f = sf.rsplit(".", 1)
            ft = self.fieldty(s, f)
            if ft.kind == "arr":
                return LV("elem", (LV("field", (s, f, p.b.arg(0), p.b.arg(1)), ft), j), t)
        self.check_access(Ptr(p.b, j), sizeof(self.tu, t), "index %s[]" % t.name if t.name else "index ptr[]")
        return LV("heap", (tk, p.b, j), t)

    def strchar(self, p):
        """is this char* a string (rather than a flag array)?"""
        if z3.is_int_value(p.b) and p.b.as_long() < 0:
            return True
        nm = str(p.b)
        return nm.startswith("strp_")

    def setline(self, n):
        if n.get("_l"):
            self.curline = n["_l"]

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if self.st.dead:
            t = n.get("type", {}).get("qualType", "int")
            return self.fresh_val("dead", self.tu.ty(t))
        self.setline(n)
        m = getattr(self, "ev_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression %s" % n["kind"])
        return m(n)

    def nty(self, n):
        return self.tu.ty(n["type"]["qualType"])

    def ev_ParenExpr(self, n):
        return self.ev(n["inner"][0])

    def ev_ConstantExpr(self, n):
        return self.ev(n["inner"][0])

    def ev_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def ev_CharacterLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def ev_FloatingLiteral(self, n):
        t = self.nty(n)
        v = float(n["value"])
        if t.name == "float":
            import struct
            v = struct.unpack("f", struct.pack("f", v))[0]
        return flit(v)

    def ev_StringLiteral(self, n):
        return Ptr(slit_base(self.strlit(n)), ZERO)

    def ev_PredefinedExpr(self, n):
        return Ptr(slit_base("__func__"), ZERO)

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name"))
        if "argType" in n:
            t = self.tu.ty(n["argType"]["qualType"])
        else:
            t = self.tu.ty(n["inner"][0]["type"]["qualType"])
        return z3.IntVal(sizeof(self.tu, t))

    def ev_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.tu.enums[d["name"]])
        if d["kind"] == "FunctionDecl":
            return FnPtr(d["name"])
        lv = self.lval(n)
        return self.rvalue(lv)

    def rvalue(self, lv):
        if lv.k == "structat":
            return Ptr(lv.a[0], lv.a[1])
        if lv.ty.kind == "struct":
            return self.lv_struct_ptr(lv)
        return self.load(lv)

    def ev_MemberExpr(self, n):
        return self.rvalue(self.lval(n))

    def ev_ArraySubscriptExpr(self, n):
        return self.rvalue(self.lval(n))

    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)

    def ev_CStyleCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n["castKind"]
        e = n["inner"][0]
        if ck == "LValueToRValue":
            if e["kind"] == "DeclRefExpr" or True:
                lv = self.lval(e)
                if lv.ty.kind == "struct" or lv.k == "structat":
                    return self.lv_struct_ptr(lv)
                return self.load(lv)
        if ck == "ArrayToPointerDecay":
            if e["kind"] in ("StringLiteral", "PredefinedExpr"):
                return self.ev(e)
            lv = self.lval(e)
            if self.is_str(lv.ty):
                return Ref(lv)
            return Ref(LV("elem", (lv, ZERO), lv.ty.to))
        if ck == "FunctionToPointerDecay":
            return self.ev(e)
        if ck in ("NoOp", "BitCast"):
            return self.ev(e)
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralCast",):
            v = self.ev(e)
            return v
        if ck == "IntegralToBoolean":
            return self.as_bool(self.ev(e))
        if ck == "PointerToBoolean":
            return self.as_bool(self.ev(e))
        if ck == "FloatingToBoolean":
            return self.as_bool(self.ev(e))
        if ck == "IntegralToFloating":
            v = z3.simplify(self.as_int(self.ev(e)))
            if z3.is_int_value(v):
                return flit(v.as_long())
            return i2f(v)
        if ck == "FloatingToIntegral":
            return f2i(self.ev(e))
        if ck == "FloatingCast":
            v = self.ev(e)
            src, dst = self.nty(e), self.nty(n)
            if src.name == "double" and dst.name == "float":
                lv = flit_val(v)
                if lv is not None:
                    import struct
                    return flit(struct.unpack("f", struct.pack("f", lv))[0])
                return d2f(v)
            return v
        if ck == "ToVoid":
            self.ev(e)
            return ZERO
        if ck in ("IntegralToPointer",):
            v = self.as_int(self.ev(e))
            return Ptr(v, ZERO)
        if ck in ("PointerToIntegral",):
            v = self.ev(e)
            return self.to_ptr(v).b
        if ck == "FloatingRealToComplex":
            return fop("cplx_of_real", 1)(self.ev(e))
        if ck in ("FloatingComplexCast",):
            return self.ev(e)
        raise Unsupported("cast " + ck)

    def ev_UnaryOperator(self, n):
        op = n["opcode"]
        e = n["inner"][0]
        if op == "!":
            return z3.Not(self.as_bool(self.ev(e)))
        if op == "-":
            v = self.ev(e)
            if isinstance(v, z3.ExprRef) and v.sort() == F:
                lv = flit_val(v)
                return flit(-lv) if lv is not None else fop("fneg", 1)(v)
            return z3.simplify(-self.as_int(v)) if z3.is_int_value(v) else -self.as_int(v)
        if op == "+":
            return self.ev(e)
        if op == "*":
            return self.rvalue(self.lval(n))
        if op == "&":
            if e["kind"] == "DeclRefExpr" and e["referencedDecl"]["kind"] == "FunctionDecl":
                return self.ev(e)
            lv = self.lval(e)
            return self.addrof(lv)
        if op in ("++", "--"):
            lv = self.lval(e)
            old = self.load(lv)
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = Ptr(old.b, old.i + d)
            elif isinstance(old, Ref):
                raise Unsupported("++ on Ref")
            else:
                new = self.as_int(old) + d
                if z3.is_int_value(old):
                    new = z3.simplify(new)
            self.store(lv, new)
            return old if n.get("isPostfix") else new
        if op == "__extension__":
            return self.ev(e)
        if op == "~":
            return fresh("bitnot", I)
        raise Unsupported("unary " + op)

    def addrof(self, lv):
        if lv.k == "structat":
            return Ptr(lv.a[0], lv.a[1])
        if lv.ty.kind == "struct":
            return self.lv_struct_ptr(lv)
        if lv.k == "heap":
            return Ptr(lv.a[1], lv.a[2])
        if lv.ty.kind == "arr" and not self.is_str(lv.ty):
            return Ref(LV("elem", (lv, ZERO), lv.ty.to))
        return Ref(lv)

    def arith(self, op, a, b, t):
        """t: result type"""
        if t.kind in ("float", "complex"):
            la, lb = flit_val(a), flit_val(b)
            if la is not None and lb is not None and t.name == "double" and not (op == "/" and lb == 0):
                try:
                    return flit({"+": la + lb, "-": la - lb, "*": la * lb, "/": la / lb if lb else 0}[op])
                except Exception:
                    pass
            nm = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op]
            return fop(nm + "_" + t.name.replace(" ", "_"))(a, b)
        a, b = self.as_int(a), self.as_int(b)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            if not z3.is_int_value(z3.simplify(a)) and not z3.is_int_value(z3.simplify(b)):
                return MUL(a, b)
            r = a * b
        elif op == "/":
            # C truncated division
            r = z3.If(a >= 0, a / b, -((-a) / b)) if True else None
        elif op == "%":
            r = z3.If(a >= 0, a % b, -((-a) % b))
        elif op in ("&", "|", "^", "<<", ">>"):
            sa, sb = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(sa) and z3.is_int_value(sb):
                x, y = sa.as_long(), sb.as_long()
                return z3.IntVal({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            r = z3.Function("bit_" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], I, I, I)(a, b)
        else:
            raise Unsupported("arith " + op)
        s = z3.simplify(r) if z3.is_int_value(a) and z3.is_int_value(b) else r
        return s

    def compare(self, op, a, b):
        if isinstance(a, (Ptr, Ref, FnPtr, Multi)) or isinstance(b, (Ptr, Ref, FnPtr, Multi)):
            if op in ("==", "!="):
                na, nb = self._isnullc(a), self._isnullc(b)
                if nb:
                    e = self.is_null(a) if not isinstance(a, z3.ExprRef) else (a == 0)
                elif na:
                    e = self.is_null(b) if not isinstance(b, z3.ExprRef) else (b == 0)
                elif isinstance(a, Ref) and isinstance(b, Ref):
                    e = z3.BoolVal(samelv(a.lv, b.lv))
                else:
                    p, q = self.to_ptr(a), self.to_ptr(b)
                    e = z3.And(p.b == q.b, p.i == q.i)
                return e if op == "==" else z3.Not(e)
            p, q = self.to_ptr(a), self.to_ptr(b)
            return {"<": p.i < q.i, ">": p.i > q.i, "<=": p.i <= q.i, ">=": p.i >= q.i}[op]
        if isinstance(a, Poison) or isinstance(b, Poison):
            return fresh("poison", B)
        if a.sort() == F or b.sort() == F:
            if op == "<":
                return flt(a, b)
            if op == ">":
                return flt(b, a)
            if op == "<=":
                return fle(a, b)
            if op == ">=":
                return fle(b, a)
            e = feq(a, b)
            return e if op == "==" else z3.Not(e)
        if op in ("==", "!=") and a.sort() == B and b.sort() == I and z3.is_int_value(b) and b.as_long() in (0, 1):
            e = a if b.as_long() == 1 else z3.Not(a)
            return e if op == "==" else z3.Not(e)
        a, b = self.as_int(a), self.as_int(b)
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def _isnullc(self, v):
        if isinstance(v, Ptr):
            return z3.is_int_value(v.b) and v.b.as_long() == 0
        return isinstance(v, z3.ExprRef) and z3.is_int_value(v) and v.as_long() == 0

    def ev_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            return self.assign(l, r)
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op in ("&&", "||"):
            a = self.as_bool(self.ev(l))
            if z3.is_true(a) and op == "||":
                return TRUE
            if z3.is_false(a) and op == "&&":
                return FALSE
            base = self.st
            self.st = base.copy()
            c = a if op == "&&" else z3.Not(a)
            self.st.pc.append(c)
            b = self.as_bool(self.ev(r))
            rs = self.st
            other = base.copy()
            other.pc.append(z3.Not(c))
            if rs.dead:
                self.st = other
            elif self.same_state(rs, base):
                self.st = base
            else:
                self.st = self.merge(rs, other)
            return z3.And(a, b) if op == "&&" else z3.Or(a, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a = self.ev(l)
            b = self.ev(r)
            return self.compare(op, a, b)
        a = self.ev(l)
        b = self.ev(r)
        t = self.nty(n)
        if t.kind == "ptr":
            if isinstance(a, (Ptr, Multi)) and isinstance(b, z3.ExprRef):
                a = self.to_ptr(a)
                return Ptr(a.b, a.i + b if op == "+" else a.i - b)
            if isinstance(b, (Ptr, Multi)) and isinstance(a, z3.ExprRef):
                b = self.to_ptr(b)
                return Ptr(b.b, b.i + a)
            if isinstance(a, Ref) and isinstance(b, z3.ExprRef):
                if a.lv.k == "elem":
                    return Ref(LV("elem", (a.lv.a[0], a.lv.a[1] + b), a.lv.ty))
                if self.is_str(a.lv.ty):
                    return Ref(LV("elem", (a.lv, b), a.lv.ty.to))
            raise Unsupported("pointer arithmetic")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            return a.i - b.i
        return self.arith(op, a, b, t)

    def same_state(self, a, b):
        if set(a.env) != set(b.env) or set(a.heap) - set(b.heap):
            # new lazily created entries are fine if they are initial maps
            pass
        for k, v in a.env.items():
            if k not in b.env:
                if k[1] == "tmp":
                    continue
                if k[0] == "g":
                    b.env[k] = v
                    continue
                return False
            if not same(v, b.env[k]):
                return False
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None:
                w = self.init_map(k)
                b.heap[k] = w
            if not v.eq(w):
                return False
        return True

    def assign(self, l, r):
        t = self.nty(l)
        if t.kind == "struct":
            src = self.structptr(r)
            lv = self.lval(l)
            dst = self.lv_struct_ptr(lv)
            self.copy_struct(t.name, dst, src)
            return dst
        v = self.ev(r)
        lv = self.lval(l)
        v = self.conv_store(v, lv.ty)
        self.store(lv, v)
        return v

    def conv_store(self, v, t):
        if t.kind == "int" and not isinstance(v, Poison):
            if isinstance(v, z3.ExprRef) and v.sort() == B:
                return self.as_int(v)
            return self.as_int(v) if not isinstance(v, z3.ExprRef) else v
        return v

    def struct_fields(self, s):
        return [(f, self.tu.ty(t)) for f, t in self.tu.records.get(s, [])]

    def copy_struct(self, s, dst, src):
        st = self.st
        for f, t in self.struct_fields(s):
            if t.kind == "struct":
                self.copy_struct(t.name, Ptr(emb("%s.%s" % (s, f), dst.b, dst.i)),
                                 Ptr(emb("%s.%s" % (s, f), src.b, src.i)))
                continue
            for nm in self.field_maps(s, f, t):
                self.setmap(st, nm, (dst.b, dst.i), self.rs(self.hget(st, nm), src.b, src.i))

    def field_maps(self, s, f, t):
        nm = "F:%s.%s" % (s, f)
        if t.kind == "ptr" or (t.kind == "arr" and t.to.kind == "ptr"):
            return [nm + ".b", nm + ".i"]
        return [nm]

    def ev_CompoundAssignOperator(self, n):
        l, r = n["inner"]
        op = n["opcode"][:-1]
        v = self.ev(r)
        lv = self.lval(l)
        old = self.load(lv)
        t = self.nty(l)
        ct = self.tu.ty(n["computeResultType"]["qualType"]) if "computeResultType" in n else t
        if isinstance(old, Ptr):
            new = Ptr(old.b, old.i + v if op == "+" else old.i - v)
        else:
            if ct.kind == "float" and isinstance(v, z3.ExprRef) and v.sort() == I:
                v = i2f(v)
            new = self.arith(op, old, v, ct)
            if ct.kind == "float" and ct.name == "double" and t.name == "float":
                new = d2f(new)
        self.store(lv, new)
        return new

    def ev_ConditionalOperator(self, n):
        c = self.as_bool(self.ev(n["inner"][0]))
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.ev(n["inner"][1])
        if z3.is_false(cs):
            return self.ev(n["inner"][2])
        base = self.st
        self.st = base.copy()
        self.st.pc.append(c)
        a = self.ev(n["inner"][1])
        sa = self.st
        self.st = base.copy()
        self.st.pc.append(z3.Not(c))
        b = self.ev(n["inner"][2])
        sb = self.st
        if sa.dead and sb.dead:
            self.st = sa
            return a
        if sa.dead:
            self.st = sb
            return b
        if sb.dead:
            self.st = sa
            return a
        if self.same_state(sa, base) and self.same_state(sb, base):
            self.st = base
        else:
            self.st = self.merge(sa, sb)
        return self.merge_val(c, a, b)

    def ev_StmtExpr(self, n):
        body = n["inner"][0]
        stmts = body.get("inner", [])
        last = None
        for k, s in enumerate(stmts):
            if k == len(stmts) - 1 and not s["kind"].endswith("Stmt"):
                last = self.ev(s)
            else:
                out = self.ex(s)
                for o in out:
                    if o != "normal":
                        raise Unsupported("control flow out of statement expression")
                if out.get("normal") is None:
                    self.st.dead = True
                    return self.fresh_val("dead", self.nty(n))
                self.st = out["normal"]
        return last if last is not None else ZERO

    def ev_VAArgExpr(self, n):
        raise Unsupported("va_arg")

    def ev_InitListExpr(self, n):
        t = self.nty(n)
        if t.kind == "arr":
            elems = n.get("inner", [])
            if "array_filler" in n:
                elems = [e for e in n["array_filler"] if e.get("kind") != "ImplicitValueInitExpr"] + \
                        [e for e in elems]
            if t.to.kind == "ptr":
                a, b = z3.K(I, ZERO), z3.K(I, ZERO)
                for k, e in enumerate(elems):
                    v = self.to_ptr(self.ev(e))
                    a, b = z3.Store(a, k, v.b), z3.Store(b, k, v.i)
                return (a, b)
            if t.to.kind in ("int",) and t.to.name != "char":
                a = z3.K(I, ZERO)
                for k, e in enumerate(elems):
                    a = z3.Store(a, k, self.as_int(self.ev(e)))
                return a
            if t.to.kind == "float":
                a = z3.K(I, flit(0.0))
                for k, e in enumerate(elems):
                    a = z3.Store(a, k, self.ev(e))
                return a
        raise Unsupported("InitListExpr %r" % t)

    def ev_ImplicitValueInitExpr(self, n):
        t = self.nty(n)
        if t.kind == "int":
            return ZERO
        if t.kind == "float":
            return flit(0.0)
        return NULL

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, n):
        callee = n["inner"][0]
        args = n["inner"][1:]
        fn = self.ev(callee)
        if isinstance(fn, Ptr):
            raise Unsupported("indirect call")
        if not isinstance(fn, FnPtr):
            raise Unsupported("call %r" % (fn,))
        return self.call(fn.name, args, n)

    def call(self, name, args, n):
        rt = self.nty(n)
        m = self.lib.get(name)
        if m is not None and (name not in self.tu.funcs or getattr(m, "always", False)):
            self.used_models.add(name)
            return m(self, args, n, rt)
        spec = self.specs.get(name)
        vals = []
        for a in args:
            t = self.nty(a)
            vals.append(self.structptr(a) if t.kind == "struct" else self.ev(a))
            if self.st.dead:
                return self.fresh_val("dead", rt)
        return self.call_vals(name, vals, rt, args)

    def call_vals(self, name, vals, rt, args=None):
        spec = self.specs.get(name)
        if spec is not None and not spec.inline and name not in self.cfg.get("noinline_self", ()):
            self.used_contracts.add(name)
            return spec.apply(self, vals, rt)
        f = self.tu.funcs.get(name)
        if f is None:
            raise Unsupported("call to unmodelled function %s" % name)
        return self.inline(f, vals, rt)

    def inline(self, f, vals, rt):
        name = f["name"]
        if self.fnstack.count(name) > 0:
            raise Unsupported("recursive call of %s" % name)
        self.inlined.add(name)
        out, ret = self.run_body(f, vals)
        if out is None:
            self.st.dead = True
            return self.fresh_val("dead", rt)
        self.st = out
        return ret if ret is not None else ZERO

    def run_body(self, f, vals):
        """execute body of f with argument values in self.st; returns (state, retval)"""
        oldframe, oldline = self.frame, self.curline
        self.frame = next(self.frames)
        oldlocals = getattr(self, "localdecls", set())
        self.localdecls = set()
        self.fnstack.append(f["name"])
        fr = self.frame
        for p, v in zip(f["_params"], vals):
            t = self.tu.ty(p["type"]["qualType"])
            key = (self.frame, p["id"], p.get("name", "?"))
            self.localdecls.add(key)
            self.ptrtypes[key] = p["type"]["qualType"]
            if t.kind == "struct":
                b = self.new_object(sizeof(self.tu, t), p.get("name", "arg"))
                self.copy_struct(t.name, Ptr(b), v)
                self.st.env[key] = b
            else:
                self.st.env[key] = self.conv_store(v, t)
        out = self.ex(f["_body"])
        rs = out.pop("return", None)
        ns = out.pop("normal", None)
        for o in out:
            if out[o] is not None:
                raise Unsupported("dangling %s" % o)
        retkey = (fr, "ret", "ret")
        s = self.merge(rs, ns)
        ret = None
        if s is not None:
            ret = s.env.pop(retkey, None)
            # drop locals of the frame
            for k in [k for k in s.env if k[0] == fr and not self.cfg.get("keep_locals")]:
                del s.env[k]
        self.fnstack.pop()
        self.frame, self.curline = oldframe, oldline
        self.localdecls = oldlocals
        return s, ret

    # ------------------------------------------------------------ statements
    def ex(self, n):
        """execute statement in self.st -> dict outcome->State"""
        if self.st.dead:
            return {}
        self.setline(n)
        k = n["kind"]
        m = getattr(self, "ex_" + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.ev(n)
        if self.st.dead:
            return {}
        return {"normal": self.st}

    def ex_NullStmt(self, n):
        return {"normal": self.st}

    def addout(self, outs, k, s):
        if s is None or s.dead:
            return
        outs[k] = self.merge_paths(outs.get(k), s)

    def merge_paths(self, a, b):
        """merge, remembering the separate paths"""
        l = [p.copy() for x in (a, b) if x is not None and not x.dead for p in x.paths()]
        s = self.merge(a, b)
        return s.snap(l) if s is not None and len(l) > 1 else s

    def ex_CompoundStmt(self, n):
        outs = {}
        cur = self.st
        for s in n.get("inner", []):
            if s["kind"] == "LabelStmt":
                g = outs.pop("goto:" + s["name"], None)
                cur = self.merge(cur, g)
            if cur is None:
                continue
            self.st = cur
            o = self.ex(s)
            cur = o.pop("normal", None)
            for kk, v in o.items():
                self.addout(outs, kk, v)
        if cur is not None and not cur.dead:
            self.addout(outs, "normal", cur)
        return outs

    def ex_LabelStmt(self, n):
        return self.ex(n["inner"][0]) if n.get("inner") else {"normal": self.st}

    def ex_GotoStmt(self, n):
        # resolve label by id
        lab = n.get("targetLabelDeclId")
        name = self.label_name(lab)
        return {"goto:" + name: self.st}

    def label_name(self, lid):
        f = self.tu.funcs[self.fnstack[-1]]
        if "_labels" not in f:
            f["_labels"] = {}

            def walk(x):
                if x.get("kind") == "LabelStmt":
                    f["_labels"][x["declId"]] = x["name"]
                for c in x.get("inner", ()):
                    if c:
                        walk(c)
            walk(f["_body"])
        return f["_labels"][lid]

    def ex_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                continue
            t = self.tu.ty(d["type"]["qualType"])
            key = (self.frame, d["id"], d["name"])
            if d.get("storageClass") == "static":
                key = ("s", d["id"], d["name"])
                if key not in self.st.env:
                    self.st.env[key] = self.fresh_val("static_" + d["name"], t)
                continue
            self.localdecls.add(key)
            self.ptrtypes[key] = d["type"]["qualType"]
            init = [c for c in d.get("inner", []) if c and not c["kind"].endswith("Attr")]
            if init:
                if t.kind == "struct":
                    if init[0]["kind"] == "InitListExpr":
                        self.st.env[key] = self.new_object(sizeof(self.tu, t), d["name"])
                        continue
                    src = self.structptr(init[0])
                    b = self.new_object(sizeof(self.tu, t), d["name"])
                    self.copy_struct(t.name, Ptr(b), src)
                    self.st.env[key] = b
                elif self.is_str(t) and init[0]["kind"] == "StringLiteral":
                    self.st.env[key] = slit(self.strlit(init[0]))
                elif self.is_str(t):
                    self.st.env[key] = fresh("strinit", STR)
                else:
                    v = self.ev(init[0])
                    if self.st.dead:
                        return {}
                    self.st.env[key] = self.conv_store(v, t)
            else:
                v = self.st.env[key] = self.fresh_val(d["name"], t)
                if isinstance(v, Ptr):
                    self.uninit[v.b.get_id()] = v.b
                elif isinstance(v, z3.ExprRef) and z3.is_const(v):
                    self.uninit[v.get_id()] = v
        return {"normal": self.st}

    def ex_ReturnStmt(self, n):
        inner = n.get("inner", [])
        if inner:
            v = self.ev(inner[0])
            if self.st.dead:
                return {}
            if isinstance(v, z3.ExprRef) and v.sort() == B:
                v = self.as_int(v)
            self.st.env[(self.frame, "ret", "ret")] = v
        return {"return": self.st}

    def ex_BreakStmt(self, n):
        return {"break": self.st}

    def ex_ContinueStmt(self, n):
        return {"continue": self.st}

    def ex_IfStmt(self, n):
        inner = n["inner"]
        c = self.as_bool(self.ev(inner[0]))
        if self.st.dead:
            return {}
        els = inner[2] if len(inner) > 2 else None
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.ex(inner[1])
        if z3.is_false(cs):
            return self.ex(els) if els else {"normal": self.st}
        base = self.st
        outs = {}
        self.st = base.copy()
        self.st.pc.append(c)
        o1 = self.ex(inner[1])
        self.st = base.copy()
        self.st.pc.append(z3.Not(c))
        o2 = self.ex(els) if els else {"normal": self.st}
        for k in list(dict.fromkeys(list(o1) + list(o2))):
            s = self.merge_paths(o1.get(k), o2.get(k))
            if s is not None:
                outs[k] = s
        return outs

    def ex_SwitchStmt(self, n):
        v = self.as_int(self.ev(n["inner"][0]))
        body = n["inner"][1]
        cases = []          # (label value or None, stmts...)
        flat = []

        def push(s):
            if s["kind"] == "CaseStmt":
                cv = self.as_int(self.ev(s["inner"][0]))
                flat.append(("case", cv))
                push(s["inner"][1])
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None))
                push(s["inner"][0])
            else:
                flat.append(("stmt", s))
        for s in body.get("inner", []):
            push(s)
        base = self.st
        allc = [c for k, c in flat if k == "case"]
        cur = None
        outs = {}
        hasdef = False
        for k, x in flat:
            if k == "stmt":
                if cur is None or cur.dead:
                    continue
                self.st = cur
                o = self.ex(x)
                cur = o.pop("normal", None)
                for kk, vv in o.items():
                    self.addout(outs, kk, vv)
            else:
                e = base.copy()
                if k == "case":
                    e.pc.append(v == x)
                else:
                    hasdef = True
                    e.pc.append(z3.And(*[v != c for c in allc]) if allc else TRUE)
                cur = self.merge(cur, e)
        if not hasdef:
            e = base.copy()
            e.pc.append(z3.And(*[v != c for c in allc]) if allc else TRUE)
            self.addout(outs, "normal", e)
        self.addout(outs, "normal", cur)
        b = outs.pop("break", None)
        self.addout(outs, "normal", b)
        return outs

    # ------------------------------------------------------------ loops
    def ex_WhileStmt(self, n):
        inner = n["inner"]
        return self.loop(n, None, inner[0], None, inner[-1], False)

    def ex_DoStmt(self, n):
        body, cond = n["inner"]
        c = self.const_cond(cond)
        if c == 0:
            o = self.ex(body)
            outs = {}
            for k in list(o):
                self.addout(outs, "normal" if k in ("normal", "continue", "break") else k, o[k])
            return outs
        return self.loop(n, None, cond, None, body, True)

    def const_cond(self, e):
        while e["kind"] in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr", "CStyleCastExpr"):
            e = e["inner"][0]
        if e["kind"] == "IntegerLiteral":
            return int(e["value"])
        return None

    def ex_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if init:
            o = self.ex(init)
            if "normal" not in o:
                return o
            self.st = o["normal"]
        return self.loop(n, None, cond or None, inc or None, body, False)

    def iteration(self, cond, inc, body, dowhile):
        """run one iteration from self.st -> (back, exits, others)"""
        others = {}
        exit_s = None
        if not dowhile:
            if cond:
                c = self.as_bool(self.ev(cond))
                if self.st.dead:
                    return None, None, {}
                cs = z3.simplify(c)
                if not z3.is_true(cs):
                    e = self.st.copy()
                    e.pc.append(z3.Not(c))
                    exit_s = e
                self.st.pc.append(c)
        o = self.ex(body)
        back = self.merge_paths(o.pop("normal", None), o.pop("continue", None))
        brk = o.pop("break", None)
        others = o
        if back is not None and inc:
            l = back.paths()
            if len(l) > 1 and not self.dry:
                for k, p in enumerate(l):
                    self.st = l[k] = p.copy()
                    self.ev(inc)
            self.st = back
            self.ev(inc)
            back = None if self.st.dead else self.st
            if back is not None and len(l) > 1 and not self.dry:
                back.snap(l)
        if dowhile and back is not None:
            self.st = back
            c = self.as_bool(self.ev(cond))
            back = self.st
            e = back.copy()
            e.pc.append(z3.Not(c))
            exit_s = self.merge(exit_s, e)
            back.pc.append(c)
        return back, (exit_s, brk), others

    def loop(self, n, _, cond, inc, body, dowhile):
        s0 = self.st
        line = n.get("_l")
        lim = next(_fresh)
        # ---- unrollable constant loops (small literal bound) are unrolled exactly
        u = self.try_unroll(cond, inc, body, dowhile)
        if u is not None:
            return u
        # ---- 1. what the loop modifies (dry run to fixpoint)
        modenv, modheap, writes = self.loop_mods(s0, cond, inc, body, dowhile)
        # ---- 2. havoc
        h = s0.copy()
        for k in modenv:
            h.env[k] = self.havoc_val(k, s0.env.get(k))
        self.cur_havoc = set()
        for k in modheap:
            if k == "NEXT":
                h.heap[k] = fresh("NEXT", I)
            else:
                h.heap[k] = fresh("M_" + k, self.hget(s0, k).sort())
        L = Loop(self, s0, h, modenv, modheap, writes, cond, line, lim)
        base_facts = len(self.facts)
        # bound expressions come from the code's own conditions
        cands = L.candidates()
        cands = [c for c in cands if self.cand_ok(c, s0)]
        if self.dry:
            live = cands[:0]
            cands = []
        else:
            live = self.check_cands(cands, s0, "init")
        nobl = len(self.obls)
        while True:
            del self.facts[base_facts:]
            del self.obls[nobl:]
            hs = h.copy()
            self.st = hs
            self.assume(h.heap["NEXT"] >= s0.heap["NEXT"]) if "NEXT" in modheap else None
            for c in live:
                self.assume(c.at(h))
            for fct in L.hints(h):
                self.assume(fct)
            back, exits, others = self.iteration(cond, inc, body, dowhile)
            if self.dry or not live:
                break
            if back is None:
                break
            ok = live
            for p in sorted(back.paths() if self.cfg.get("paths") else [back], key=lambda p: -len(p.pc)):
                self.st = p
                hint0 = len(self.facts)
                for fct in L.hints(p):
                    self.assume(fct)
                ok = self.check_cands(ok, p, "preserve")
                del self.facts[hint0:]
            self.st = back
            if len(ok) == len(live):
                break
            live = ok
        if not self.dry:
            self.loop_count += 1
            self.inv_log.append((self.fnstack[-1], line, [c.name for c in live]))
            # the inductive steps themselves count as obligations (already discharged by Houdini)
            for c in live:
                o = Obligation("%s:loop:%s" % (self.fnstack[-1], c.name), "invariant", self.fnstack[-1], line, None, None)
                o.status, o.backend, o.time = "proved", "z3", c.time
                self.obls.append(o)
        outs = dict(others)
        nrm = None
        for e in exits or ():
            nrm = self.merge(nrm, e)
        if nrm is not None:
            outs["normal"] = nrm
        return outs

    def cand_ok(self, c, st):
        try:
            c.at(st)
            return True
        except (Unsupported, AttributeError, z3.Z3Exception, KeyError):
            return False

    def try_unroll(self, cond, inc, body, dowhile):
        """for (i = const; i < const<=16; i++) with i not otherwise modified: exact unrolling"""
        if dowhile or not cond or not inc:
            return None
        lim = self.cfg.get("unroll", 16)
        s0 = self.st
        c = self.peek_cond(cond)
        if c is None:
            return None
        # try executing concretely while the condition simplifies to a constant
        outs = {}
        count = 0
        saved = (len(self.facts), len(self.obls))
        cur = s0.copy()
        exits = None
        while True:
            self.st = cur
            cv = z3.simplify(self.as_bool(self.ev(cond)))
            if z3.is_false(cv):
                exits = self.merge(exits, self.st)
                break
            if not z3.is_true(cv) or count >= lim:
                # not unrollable: roll back
                del self.facts[saved[0]:]
                del self.obls[saved[1]:]
                self.st = s0
                return None
            o = self.ex(body)
            cur = self.merge(o.pop("normal", None), o.pop("continue", None))
            exits = self.merge(exits, o.pop("break", None))
            for k, v in o.items():
                self.addout(outs, k, v)
            if cur is None:
                break
            self.st = cur
            self.ev(inc)
            cur = self.st
            count += 1
        if exits is not None:
            outs["normal"] = exits
        return outs

    def peek_cond(self, cond):
        sv, nf, no = self.st, len(self.facts), len(self.obls)
        self.st = sv.copy()
        self.dry += 1
        try:
            c = z3.simplify(self.as_bool(self.ev(cond)))
        finally:
            self.dry -= 1
            self.st = sv
            del self.facts[nf:]
            del self.obls[no:]
        return c if (z3.is_true(c) or z3.is_false(c)) else None

    def havoc_val(self, k, v):
        nm = str(k[-1])
        if isinstance(v, z3.ExprRef):
            return fresh(nm, v.sort() if v.sort() != B else I)
        if isinstance(v, Ptr):
            return Ptr(fresh(nm + ".b", I), fresh(nm + ".i", I))
        if isinstance(v, tuple):
            return tuple(fresh(nm, x.sort()) for x in v)
        if isinstance(v, (Multi, Ref)):
            return Ptr(fresh(nm + ".b", I), fresh(nm + ".i", I))
        return Poison("havoc")

    def loop_mods(self, s0, cond, inc, body, dowhile):
        modenv, modheap = set(), set()
        nf, no = len(self.facts), len(self.obls)
        oldmods = self.mods
        loc0 = set(self.localdecls)
        for _ in range(6):
            self.mods = []
            h = s0.copy()
            for k in modenv:
                h.env[k] = self.havoc_val(k, s0.env.get(k))
            for k in modheap:
                h.heap[k] = fresh("M_" + k, self.hget(s0, k).sort()) if k != "NEXT" else fresh("NEXT", I)
            start = h.copy()
            self.st = h
            self.dry += 1
            try:
                back, exits, others = self.iteration(cond, inc, body, dowhile)
            finally:
                self.dry -= 1
            writes = self.mods
            ne, nh = set(modenv), set(modheap)
            for s in [back] + list(exits or ()) + list(others.values()):
                if s is None:
                    continue
                for k, v in s.env.items():
                    if k in start.env and not same(v, start.env[k]):
                        ne.add(k)
                for k, v in s.heap.items():
                    w = start.heap.get(k)
                    if w is None:
                        w = self.init_map(k)
                    if not v.eq(w):
                        nh.add(k)
            del self.facts[nf:]
            del self.obls[no:]
            if ne == modenv and nh == modheap:
                break
            modenv, modheap = ne, nh
        self.mods = oldmods
        if oldmods is not None:
            oldmods.extend(writes)
        self.st = s0
        for k in modheap:
            self.hget(s0, k)
        return modenv, modheap, writes

    # ------------------------------------------------------------ solving
    def solver(self, timeout=None):
        return mk_solver(timeout or self.timeout)

    def check_cands(self, cands, st, phase):
        """which candidates provably hold in st (given facts and pc)"""
        if not cands:
            return []
        t0 = time.time()
        with nopat():
            goals = [c.at(st) for c in cands]
        base = list(background(self.cfg)) + self.bgfacts + self.facts + [conj(st.pc)]

        def one(k):
            c, g = cands[k], goals[k]
            if z3.is_true(z3.simplify(g)):
                return True, 0.0
            t1 = time.time()
            r, how, s = solve(base + skolem_instances(self.bgfacts + self.facts, g), self.cfg.get("cand_timeout", 4000) // (4 if phase == "init" else 1), 1 if phase == "init" else self.cfg.get("cand_tries", 3), g, True)
            if self.cfg.get("verbose", 0) >= 2:
                print("   cand %s %s %s %s %.2fs" % (phase, c.name, r, how.replace(" ", "_"), time.time() - t1), flush=True)
            if r != z3.unsat and self.cfg.get("dump"):
                open("%s/cand_%s_%s.smt2" % (self.cfg["dump"], phase, "".join(x if x.isalnum() else "_" for x in c.name)), "w").write(s.to_smt2())
            return r == z3.unsat, time.time() - t1
        ok = []
        for c, (good, dt) in zip(cands, pmap(one, len(cands))):
            c.time += dt
            self.nqueries += 1
            if good:
                ok.append(c)
        self.solver_time += time.time() - t0
        return ok


class Cand:
    __slots__ = ("name", "f", "time")

    def __init__(self, name, f):
        self.name, self.f, self.time = name, f, 0.0

    def at(self, st):
        return self.f(st)


class Loop:
    """what a template may look at"""

    def __init__(self, ex, s0, h, modenv, modheap, writes, cond, line, lim):
        self.lim = lim
        self.extra_hints = []      # fn(state) -> instances of facts already assumed
        self.ex, self.s0, self.h, self.modenv, self.modheap, self.writes = ex, s0, h, modenv, modheap, writes
        self.cond, self.line = cond, line
        hv = set()
        for k in modenv:
            v = h.env[k]
            for x in (v if isinstance(v, tuple) else (v.b, v.i) if isinstance(v, Ptr) else (v,)):
                if isinstance(x, z3.ExprRef):
                    hv.add(x.get_id())
        for k in modheap:
            hv.add(h.heap[k].get_id())
        self.hv = hv
        self.ints = []       # (name, getter)
        self.intkeys = set()
        for k in sorted(modenv, key=str):
            v0 = s0.env.get(k)
            if isinstance(v0, z3.ExprRef) and v0.sort() in (I, B) and v0.get_id() not in ex.uninit:
                self.ints.append((str(k[-1]), (lambda st, k=k: ex.as_int(st.env[k]))))
        # GList cursors: position in the list they started in
        self.lists = []
        for k in sorted(modenv, key=str):
            v0 = s0.env.get(k)
            if isinstance(v0, Ptr) and v0.b.get_id() not in ex.uninit:      # not a variable that is first set inside the loop
                self.lists.append((str(k[-1]), k, v0))
        # int cells in the heap at loop-invariant addresses
        seen = set()
        self.cells = []
        for nm, b, i in writes:
            if nm in (ex.cfg.get("nometa") or ()):
                continue
            if not nm.startswith("F:") or i is None or nm.endswith(".b") or nm.endswith(".i"):
                continue
            if ex.map_sort(nm).range().range() != I:
                continue
            if self.invariant_term(b) and self.invariant_term(i):
                key = (nm, b.get_id(), i.get_id())
                if key in seen:
                    continue
                seen.add(key)
                self.cells.append((nm, b, i))

    def invariant_term(self, t):
        """term built only from symbols existing before the loop"""
        seen = set()
        lim = self._limit()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm and int(nm.rsplit("!", 1)[1]) >= lim:
                    return False
            stack.extend(x.children())
        return True

    def _limit(self):
        if not hasattr(self, "_lim"):
            # smallest fresh index among havoc symbols of this loop's dry runs
            self._lim = self.lim
        return self._lim

    def pos(self, k, v0):
        """position of list cursor k in the list it had at loop entry (len when exhausted)"""
        ex = self.ex

        def f(st):
            v = ex.to_ptr(st.env[k])
            return z3.If(v.b == 0, rsel(ex.hget(st, "LLen"), v0.b), v.i)
        return f

    def metas(self):
        """int-valued metavariables"""
        ms = list(self.ints)
        for nm, k, v0 in self.lists:
            if self.is_list(k):
                ms.append(("pos(%s)" % nm, self.pos(k, v0)))
        for nm, b, i in self.cells:
            ms.append(("%s" % nm, (lambda st, nm=nm, b=b, i=i: self.ex.rs(self.ex.hget(st, nm), b, i))))
        return ms

    def is_list(self, k):
        t = self.ex.ptrtypes.get(k)
        return t is not None and "GList" in t

    def candidates(self):
        ex = self.ex
        cs = []
        s0 = self.s0
        n0 = s0.heap["NEXT"]
        # frames: objects existing before the loop keep their contents, except at bases the body names
        for k in sorted(self.modheap):
            if k == "NEXT":
                continue
            bs = {}
            for nm, b, i in self.writes:
                if nm == k and self.invariant_term(b):
                    bs[b.get_id()] = b
            m0 = s0.heap[k]
            b = z3.Int("b")
            bl = list(bs.values())
            g0 = z3.And(b < n0, b != 0) if (k == "Own" or k.startswith("H:")) else b < n0      # no data at NULL

            def fr(st, k=k, m0=m0, bl=bl, g0=g0):
                m = st.heap[k]
                body = sel(m, b) == sel(m0, b)
                return FA([b], z3.Implies(z3.And(g0, *[b != x for x in bl]), body), sel(m, b))
            if k not in ex.cfg.get("noframe", ()):
                cs.append(Cand("frame(%s)" % k, fr))
            if bl and k not in ex.cfg.get("noframe0", ()):
                def fr2(st, k=k, m0=m0, g0=g0):
                    m = st.heap[k]
                    return FA([b], z3.Implies(g0, sel(m, b) == sel(m0, b)), sel(m, b))
                cs.append(Cand("frame0(%s)" % k, fr2))
            # embedded objects
            if k.startswith("F:"):
                embs = [x for x in bl if z3.is_app(x) and x.decl().name().startswith("emb_")]

                def fr3(st, k=k, m0=m0, bl=bl):
                    m = st.heap[k]
                    return FA([b], z3.Implies(z3.And(tag(b) != 0, *[b != x for x in bl]), sel(m, b) == sel(m0, b)), sel(m, b))
                cs.append(Cand("frameE(%s)" % k, fr3))
        # ints
        bounds = self.bounds()
        for nm, g in self.metas():
            v0 = g(s0)
            cs.append(Cand("%s>=init" % nm, lambda st, g=g, v0=v0: g(st) >= v0))
            for bn, e in bounds:
                if z3.is_true(z3.simplify(e == v0)):        # would say that a variable the loop changes keeps its value
                    continue
                cs.append(Cand("%s<=%s" % (nm, bn), lambda st, g=g, e=e: g(st) <= e))
        for nm, k, v0 in self.lists:
            if not self.is_list(k) or (z3.is_int_value(v0.b) and v0.b.as_long() == 0):
                continue

            def lc(st, k=k, v0=v0):
                v = ex.to_ptr(st.env[k])
                return z3.Or(z3.And(v.b == 0, v.i == 0),
                             z3.And(v.b == v0.b, v.i >= v0.i, v.i < rsel(ex.hget(st, "LLen"), v0.b)))
            cs.append(Cand("cursor(%s)" % nm, lc))
        # user templates
        for t in ex.templates:
            cs.extend(t(self) or [])
        return cs

    def bounds(self):
        """upper bounds suggested by the loop's own condition: operands evaluated at entry"""
        ex = self.ex
        out = []
        if not self.cond:
            return out
        sv, nf, no = ex.st, len(ex.facts), len(ex.obls)
        ex.dry += 1

        def walk(n):
            if n["kind"] == "BinaryOperator" and n["opcode"] in ("<", ">", "<=", ">=", "!=") :
                for c in n["inner"]:
                    try:
                        ex.st = self.s0.copy()
                        v = ex.ev(c)
                        if isinstance(v, z3.ExprRef) and v.sort() == I:
                            out.append((z3.simplify(v).sexpr()[:30].replace("\n", " "), v))
                    except Unsupported:
                        pass
            for c in n.get("inner", ()):
                if c:
                    walk(c)
        try:
            walk(self.cond)
        finally:
            ex.dry -= 1
            ex.st = sv
            del ex.facts[nf:]
            del ex.obls[no:]
        return out

    def hints(self, st):
        hs = []
        for f in self.extra_hints:
            hs += f(st)
        for nm, g in self.metas():
            try:
                v = g(st)
            except Exception:
                continue
            hs.append(UNF(v))
            hs.append(UNF(v + 1))
        return hs
