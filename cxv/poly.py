"""Equalities between rational expressions: both sides brought to polynomial normal form over their atoms (array reads, uninterpreted
applications, inverses of normalised denominators), conditions resolved by the solver or split into cases.

   a / b  is  a * INV(b), INV uninterpreted: an equality proved for every INV holds for division, whatever division by zero is."""
import z3
from .sym import *

INV = z3.Function("INV", R, R)
OPTS = dict(som=True, sort_sums=True, flat=True, pull_cheap_ite=False, push_ite_arith=False)


def nf(t, memo=None):
    """divisions as products with an inverse, then sums of monomials everywhere"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r[1]
        if not z3.is_app(x) or not x.num_args():
            y = x
        else:
            ch = [go(q) for q in x.children()]
            if z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(ch[1]):
                b = z3.simplify(ch[1], **OPTS)
                y = ch[0] * INV(b)
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                y = x
            else:
                y = x.decl()(*ch)
        memo[x.get_id()] = (x, y)
        return y
    return z3.simplify(go(t), **OPTS)


MONO = {}


def lin(t):
    """the normal form with its products as unknowns: what follows for unknown products follows"""
    memo = {}

    def go(x):
        r = memo.get(x.get_id())
        if r is None:
            if not z3.is_app(x) or not x.num_args():
                y = x
            elif z3.is_mul(x) and x.sort().eq(R):
                num = [q for q in x.children() if z3.is_rational_value(q)]
                oth = [q for q in x.children() if not z3.is_rational_value(q)]
                if len(oth) > 1:
                    k = tuple(sorted(q.get_id() for q in oth))
                    if k not in MONO:
                        MONO[k] = (oth, z3.Real(fresh_name("mono")))
                    y = MONO[k][1]
                    for q in num:
                        y = q * y
                else:
                    y = x
            elif z3.is_quantifier(x):
                y = x
            else:
                y = x.decl()(*[go(q) for q in x.children()])
            r = memo[x.get_id()] = (x, y)
        return r[1]
    return go(nf(t))


def nonlinear(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(x.arg(1)):
            return True
        if z3.is_mul(x) and sum(1 for q in x.children() if not (z3.is_rational_value(q) or z3.is_int_value(q))) > 1:
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


class Poly:
    def __init__(self, ctx):
        self.c = ctx
        self.s = ctx.sums

    def split(self, goal):
        """ground goals; of a clause, the one equality of reals is the conclusion"""
        for hy, g in self.s.split(goal):
            eqs = [x for x in g.children() if z3.is_eq(x) and x.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_DATATYPE_SORT)] if z3.is_or(g) else []
            if len(eqs) == 1:
                yield from self.s.split(eqs[0], hy + tuple(z3.Not(x) for x in g.children() if not x.eq(eqs[0])))
            else:
                yield hy, g

    def prove(self, H, goal, cs=()):
        """True if every real equality of the goal holds by normal forms, the rest by the solver"""
        for hy, g in self.split(goal):
            c2 = list(cs)
            for h in hy:
                c2.append(self.resolve(H, c2, h)[0])
            H2 = H + c2
            if hy and self.holds(H, c2, z3.BoolVal(False)):
                continue
            g = self.s.unfold(g, H2)
            parts = list(self.split(g))
            if len(parts) > 1 or not parts[0][1].eq(g):
                if not self.prove(H, g, c2):
                    return False
                continue
            if z3.is_true(simp(g)):
                continue
            if z3.is_eq(g) and g.arg(0).sort().eq(R):
                if not self.zero(H, c2, g.arg(0) - g.arg(1), 8):
                    return False
            elif z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT and g.arg(0).sort().num_constructors() == 1:
                so = g.arg(0).sort()
                for i in range(so.constructor(0).arity()):
                    if not self.prove(H, simp(so.accessor(0, i)(g.arg(0))) == simp(so.accessor(0, i)(g.arg(1))), c2):
                        return False
            elif self.s.has(g) or not self.s.valid(H2, g, 1500):
                return False
        return True

    def holds(self, H, cs, g):
        """the condition follows from the case distinctions, in normal form, or from all hypotheses"""
        if self.unsat([lin(x) for x in cs] + [lin(z3.Not(g))], 500):
            return True
        g = simp(g)
        if z3.is_false(g):                      # the cases contradict each other, or the ground hypotheses
            from .exec import has_quant
            return self.unsat([lin(x) for x in H + list(cs) if not has_quant(x)], 800)
        return self.s.valid(H + list(cs), g, 800)

    def unsat(self, fs, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*fs)
        return s.check() == z3.unsat

    def cond(self, P, skip):
        """the first innermost condition of the term that is not to be skipped"""
        seen, st = set(), [P]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                inner = self.cond(x.arg(0), skip)
                if inner is not None:
                    return inner
                if not any(x.arg(0).eq(q) for q in skip):
                    return x.arg(0)
            if z3.is_app(x):
                st.extend(x.children())
        return None

    def resolve(self, H, cs, P):
        """decide the conditions of the term that the hypotheses decide; the first undecided one, if any"""
        P = self.s.unfold(simp(P), H + cs)
        open_ = []
        while True:
            g = self.cond(P, open_)
            if g is None:
                return P, (open_[0] if open_ else None)
            if self.holds(H, cs, g):
                v = True
            elif self.holds(H, cs, z3.Not(g)):
                v = False
            else:
                open_.append(g)
                continue
            P = self.s.unfold(simp(z3.substitute(P, (g, z3.BoolVal(v)))), H + cs)

    def zero(self, H, cs, P, cases):
        P, g = self.resolve(H, cs, P)
        if g is None:
            d = nf(P)
            if z3.is_rational_value(d):
                return d.as_fraction() == 0
            return self.holds(H, cs, P == 0)
        if not cases:
            return False
        for c, v in ((g, True), (z3.Not(g), False)):
            if not self.zero(H, cs + [c], simp(z3.substitute(P, (g, z3.BoolVal(v)))), cases - 1):
                return False
        return True
