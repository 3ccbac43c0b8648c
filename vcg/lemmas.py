"""Proofs (by induction, base case and step discharged by Z3) of the inductive
consequences of CNT's definition that the background theory uses as axioms."""
import time
import z3
I, B = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, B)


def defn(f):
    """CNT's definition at every n"""
    a, n = z3.Const("a", A), z3.Int("n")
    return [z3.ForAll([a, n], z3.Implies(n <= 0, f(a, n) == 0), patterns=[f(a, n)])]


def lemmas():
    C = z3.Function("CNT", A, I, I)
    a, b = z3.Consts("a b", A)
    n, m, w = z3.Ints("n m w")
    D = lambda x, k: C(x, k) == C(x, k - 1) + z3.If(x[k - 1], 1, 0)      # definition at k > 0
    out = []

    def induct(name, P, arrays, base=0):
        """for all n >= base: P(n) - base case and step; below 0 CNT is 0 by definition"""
        out.append((name + ":base", defn(C) + [z3.Not(P(z3.IntVal(base)))]))
        out.append((name + ":step", defn(C) + [n >= base, P(n)] + [D(x, n + 1) for x in arrays] + [z3.Not(P(n + 1))]))
    induct("bounds", lambda k: z3.And(0 <= C(a, k), C(a, k) <= k), [a])
    # monotone: for fixed m, all k >= m+1: CNT(m) <= CNT(k), strictly if a[m]
    P = lambda k: z3.And(C(a, m) <= C(a, k), z3.Implies(a[m], C(a, m) < C(a, k)))
    out.append(("monotone:base", defn(C) + [m >= 0, D(a, m + 1), z3.Not(P(m + 1))]))
    out.append(("monotone:step", defn(C) + [m >= 0, n >= m + 1, P(n), D(a, n + 1), z3.Not(P(n + 1))]))
    # witness: a positive count has an index below n where the array holds
    induct("witness", lambda k: z3.Implies(C(a, k) > 0, z3.Exists([w], z3.And(0 <= w, w < k, a[w]))), [a])
    # equal arrays below n count the same
    induct("equal", lambda k: z3.Or(C(a, k) == C(b, k), z3.Exists([w], z3.And(0 <= w, w < k, a[w] != b[w]))), [a, b])
    x, y, k = z3.Ints("x y k")
    out.append(("product:nonneg", [x >= 0, y >= 0, z3.Not(x * y >= 0)]))
    out.append(("product:grows", [x >= 1, y >= 1, z3.Not(z3.And(x * y >= x, x * y >= y))]))
    out.append(("product:monotone", [0 <= x, x < y, k >= 0, z3.Not(x * k + k <= y * k)]))
    return out


def run(tier="quick", repo=None):
    t0 = time.time()
    failures, ok = [], 0
    L = lemmas()
    for name, asserts in L:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(asserts)
        if s.check() == z3.unsat:
            ok += 1
        else:
            failures.append("lemma %s not discharged" % name)
    return dict(name="inductive lemmas about CNT (vcg/lemmas.py)", obligations=len(L), discharged=ok, failures=failures,
                backend="z3", wall_s=round(time.time() - t0, 2))


if __name__ == "__main__":
    print(run())
