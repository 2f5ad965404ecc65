"""Sums without bound.  A loop that accumulates is summarised by a symbol SUM(..., m) = sum of body(j), j in [0, m).
Equalities between terms built from such symbols are decided by linearity and extensionality:

   L - R = rest + sum_i c_i * SUM_i(m_i)        (checked: the left side is that linear form)
   rest = 0   and   for every group of equal bounds m:  for all j in [0, m):  sum_i c_i * body_i(j) = 0
   ----------------------------------------------------------------------------------------------------
   L = R

plus the recurrence SUM(m+1) = SUM(m) + body(m) and the splitting of a range into consecutive ranges.
Each premise is an ordinary obligation for the solver."""
import z3
from .sym import *


class Sums:
    def __init__(self, ctx):
        self.c = ctx
        self.L = ctx.X.loops
        self.deadline = None
        self.det = ""
        self.memo = {}

    # ------------------------------------------------------------------ goals
    def has(self, t):
        """does the term (or what its arrays are defined by) mention a sum?"""
        if not self.L.sums:
            return False
        names = self.L.sums
        deep = self.L.sumdefs
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in names or x.decl().name() in deep):
                    return True
                st.extend(x.children())
        return False

    def split(self, g, hyps=()):
        """ground goals with hypotheses"""
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const(fresh_name("sk"), g.var_sort(i)) for i in range(g.num_vars())]
            yield from self.split(z3.substitute_vars(g.body(), *reversed(vs)), hyps)
        elif z3.is_and(g):
            for x in g.children():
                yield from self.split(x, hyps)
        elif z3.is_implies(g):
            yield from self.split(g.arg(1), hyps + (g.arg(0),))
        elif z3.is_or(g):
            # clause: the sum equality is the conclusion, the rest are hypotheses
            ch = g.children()
            main = [x for x in ch if self.has(x)]
            if len(main) == 1:
                yield from self.split(main[0], hyps + tuple(z3.Not(x) for x in ch if not x.eq(main[0])))
            else:
                yield hyps, g
        elif z3.is_app_of(g, z3.Z3_OP_ITE):
            c, a, b = g.children()
            yield from self.split(a, hyps + (c,))
            yield from self.split(b, hyps + (z3.Not(c),))
        elif z3.is_not(g):
            x = g.arg(0)
            if z3.is_or(x):
                for y in x.children():
                    yield from self.split(z3.Not(y), hyps)
            elif z3.is_and(x):
                yield from self.split(z3.Or(*[z3.Not(y) for y in x.children()]), hyps)
            elif z3.is_not(x):
                yield from self.split(x.arg(0), hyps)
            elif z3.is_quantifier(x) and x.is_exists():
                vs = [z3.Const(fresh_name("sk"), x.var_sort(i)) for i in range(x.num_vars())]
                yield from self.split(z3.Not(z3.substitute_vars(x.body(), *reversed(vs))), hyps)
            else:
                yield hyps, g
        else:
            yield hyps, g

    def prove(self, H, goal, depth=0):
        """status, detail"""
        if not depth and self.valid(H, goal, 700):      # sums as uninterpreted functions may be enough
            return "discharged", ""
        if depth > 4:
            return "unknown", "sums nested too deeply"
        for hy, g in self.split(goal):
            H2 = H + list(hy)
            g = self.unfold(g, H2)
            if not self.has(g):
                r = self.solve(H2, g)
                if r != "discharged":
                    return ("unknown" if r == "failed" and depth else r), "part: %s" % str(g)[:300]
                continue
            gs = list(self.split(g))
            if len(gs) > 1 or not gs[0][1].eq(g):
                r, d = self.prove(H2, g, depth + 1)
                if r != "discharged":
                    return r, d
                continue
            r, d = self.ground(H2, g, depth)
            if r != "discharged":
                return r, d
        return "discharged", ""

    def solve(self, H, g):
        g = simp(g)
        if z3.is_true(g):
            return "discharged"
        st, be, det = self.c.solve(H, g)
        self.det = det
        return st

    def valid(self, H, g, ms=2000, ground=False):
        g = simp(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set("timeout", ms)
        ematch(s)
        if ground:
            from .exec import has_quant
            H = [h for h in H if not has_quant(h)]
        from .vc import relevant
        s.add(*relevant(H, g, ()))
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    # ------------------------------------------------------------------ definitions
    def unfold(self, t, H, limit=12):
        """replace reads of summarised arrays by their definition"""
        for _ in range(limit):
            t2 = self.once(t, H)
            if t2.eq(t):
                return t
            t = simp(t2)
        return t

    def once(self, t, H):
        subs, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_SELECT):
                a, i = x.children()
                if z3.is_app_of(a, z3.Z3_OP_ITE):
                    subs.append((x, z3.If(a.arg(0), z3.Select(a.arg(1), i), z3.Select(a.arg(2), i))))
                elif z3.is_store(a):
                    b, k, v = a.children()
                    subs.append((x, z3.If(i == k, v, z3.Select(b, i))))
                elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in self.L.defs:
                    act, m, tt, body = self.L.defs[a.decl().name()]
                    args = a.children()
                    if self.nonneg(H, args[-1]):
                        subs.append((x, z3.substitute(body, *(list(zip(act, args)) + [(m, args[-1]), (tt, i)]))))
            st.extend(x.children())
        return z3.substitute(t, *subs) if subs else t

    def nonneg(self, H, m):
        m = simp(m)
        if z3.is_int_value(m):
            return m.as_long() >= 0
        return self.valid(H, m >= 0)

    def apps(self, t):
        k = (t.get_id(), len(self.L.sums))
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = r = (t, self.apps0(t))      # keeps t alive, so its id stays its own
        return list(r[1])

    def apps0(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.L.sums:
                out.append(x)
                continue
            st.extend(x.children())
        return out

    def body(self, a, j):
        s = self.L.sums[a.decl().name()]
        args = a.children()
        sub = list(zip(s.act, args))
        if s.t is not None:
            sub.append((s.t, args[len(s.act)]))
        return z3.substitute(s.body, *(sub + [(s.j, j)]))

    # ------------------------------------------------------------------ one ground goal
    def ground(self, H, g, depth):
        if not depth:
            ex = []
            for a in self.apps(g):
                for b in self.theirs(H):
                    if not a.eq(b) and a.sort().eq(b.sort()) and a.children()[-1].eq(b.children()[-1]):
                        j = z3.Int(fresh_name("sj"))
                        Hj = H + [j >= 0, j < a.children()[-1]]
                        if self.valid(Hj, self.unfold(simp(self.body(a, j) - self.body(b, j)), Hj) == 0):
                            ex.append(a == b)
            if ex and self.valid(H + ex, g):
                return "discharged", ""
        r, d = self.ground1(H, g, depth)
        if r == "discharged" or depth:
            return r, d
        # sums of the goal that are equal to sums the hypotheses speak about
        ex = []
        mine = self.apps(g)
        for a in mine:
            for b in self.theirs(H):
                if not a.eq(b) and a.sort().eq(b.sort()) and self.equal(H, a, b, 2)[0] == "discharged":
                    ex.append(a == b)
        return self.plain(H + ex, g) if ex else (r, d)

    def theirs(self, H):
        out = {}
        for h in H:
            if not z3.is_quantifier(h):
                for a in self.apps(h):
                    out[a.get_id()] = a
        return list(out.values())

    def ground1(self, H, g, depth):
        if z3.is_eq(g) and (g.arg(0).sort().eq(R) or g.arg(0).sort().eq(I)):
            return self.equal(H, g.arg(0), g.arg(1), depth)
        if z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT:
            so = g.arg(0).sort()
            if so.num_constructors() == 1:
                for i in range(so.constructor(0).arity()):
                    r, d = self.prove(H, simp(so.accessor(0, i)(g.arg(0))) == simp(so.accessor(0, i)(g.arg(1))), depth + 1)
                    if r != "discharged":
                        return r, d
                return "discharged", ""
        if z3.is_le(g) or z3.is_ge(g) or z3.is_lt(g) or z3.is_gt(g):
            pass
        return self.plain(H, g)

    def plain(self, H, g):
        """give the solver the recurrences between the sums that occur and hope"""
        ap = self.apps(g)
        ex = []
        for a in ap:
            for b in ap:
                if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                    d = simp(a.children()[-1] - b.children()[-1])
                    if z3.is_int_value(d) and d.as_long() == 1:
                        m = b.children()[-1]
                        ex.append(z3.Implies(m >= 0, a == b + self.body(b, m)))
        r = self.solve(H + ex, g)
        return ("unknown" if r == "failed" else r), "sums: %s" % str(g)[:300]

    def norm(self, H, P):
        """recurrence: rewrite SUM(m+k), k small, to SUM(m) when both occur; SUM of a constant range"""
        for _ in range(8):
            ap = self.apps(P)
            sub = None
            for a in ap:
                m = simp(a.children()[-1])
                if z3.is_int_value(m) and 0 <= m.as_long() <= 8:
                    z = [self.body(a, iv(q)) for q in range(m.as_long())]
                    sub = (a, z3.Sum(z) if z else (iv(0) if a.sort().eq(I) else z3.RealVal(0)))
                    break
                for b in ap:
                    if a.eq(b):
                        continue
                    mb = b.children()[-1]
                    d = simp(m - mb)
                    if z3.is_int_value(d) and 1 <= d.as_long() <= 4 and self.nonneg(H, mb):
                        sub = (a, z3.Sum([a.decl()(*(a.children()[:-1] + [mb]))] + [self.body(a, simp(mb + q)) for q in range(d.as_long())]))
                        break
                if sub:
                    break
            if not sub:       # the same sum with a bound one larger, though it does not look like it
                for a in ap:
                    for b in ap:
                        x, y = a.children(), b.children()
                        if a.eq(b) or not a.decl().eq(b.decl()) or not all(p.eq(q) for p, q in zip(x[:-1], y[:-1])):
                            continue
                        if self.valid(H, z3.And(x[-1] == y[-1] + 1, y[-1] >= 0), 1000):
                            sub = (a, b + self.body(b, y[-1]))
                            break
                    if sub:
                        break
            if not sub:
                return P
            P = self.unfold(simp(z3.substitute(P, sub)), H)
        return P

    def guard(self, P):
        """a condition that selects between terms with sums"""
        seen, st = set(), [P]
        while st:
            x = st.pop(0)
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and (self.apps(x.arg(1)) or self.apps(x.arg(2))) and not self.apps(x.arg(0)):
                return x.arg(0)
            st.extend(x.children())
        return None

    def equal(self, H, a, b, depth, cases=6):
        P = simp(a - b)
        g = self.guard(P) if cases else None
        if g is not None:
            for c, v in ((g, z3.BoolVal(True)), (z3.Not(g), z3.BoolVal(False))):
                if self.valid(H, z3.Not(c)):
                    continue
                Q = self.unfold(simp(z3.substitute(P, (g, v))), H + [c])
                r, d = self.equal(H + [c], Q, z3.RealVal(0) if Q.sort().eq(R) else iv(0), depth, cases - 1)
                if r != "discharged":
                    return r, d
            return "discharged", ""
        P = self.norm(H, P)
        ap = self.apps(P)
        if not ap:
            r = self.solve(H, P == 0)
            return r if r != "failed" or not depth else "unknown", self.det
        vs = [z3.Const(fresh_name("sv"), x.sort()) for x in ap]
        Q = z3.substitute(P, *zip(ap, vs))
        if any(self.apps(Q)) or self.has(Q):
            return self.plain(H, P == 0)
        num = lambda x, n: iv(n) if x.sort().eq(I) else z3.RealVal(n)
        rest = simp(z3.substitute(Q, *[(v, num(v, 0)) for v in vs]))
        cs = [simp(z3.substitute(Q, *[(w, num(w, 1 if w.eq(v) else 0)) for w in vs]) - rest) for v in vs]
        mul = lambda c, v: c * (z3.ToReal(v) if c.sort().eq(R) and v.sort().eq(I) else v)
        lin = Q == rest + z3.Sum([mul(c, v) for c, v in zip(cs, vs)])
        if not self.valid(H, lin) and self.solve(H, lin) != "discharged":
            return "unknown", "not linear in the sums: %s" % str(P)[:200]
        if not z3.is_true(simp(rest == 0)):
            r = self.solve(H, rest == 0)
            if r != "discharged":
                return "unknown", "part outside the sums: %s" % str(rest)[:300]
        groups = []
        for x, c in zip(ap, cs):
            if z3.is_true(simp(c == 0)):
                continue
            m = x.children()[-1]
            for G in groups:
                if G[0].eq(m) or self.valid(H, G[0] == m, 1000, True) or (self.alike(G[1], x) and self.valid(H, G[0] == m, 2000)):
                    G[1].append((x, c))
                    break
            else:
                groups.append((m, [(x, c)]))
        return self.groups(H, groups, depth)

    def alike(self, G, x):
        """the same summand as one of the group: the bounds are likely to be equal, too"""
        j = z3.Int("alike!j")
        b = self.body(x, j)
        return any(simp(self.body(y, j)).eq(simp(b)) for y, _ in G)

    def term(self, G, j):
        ts = []
        for x, c in G:
            b = self.body(x, j)
            ts.append(c * (z3.ToReal(b) if c.sort().eq(R) and b.sort().eq(I) else b))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zero(self, H, t, depth):
        r, d = self.prove(H, simp(t) == 0, depth + 1)
        return r == "discharged", d

    def groups(self, H, groups, depth):
        bad, d = [], ""
        for m, G in groups:
            j = z3.Int(fresh_name("sj"))
            ok, d = self.zero(H + [j >= 0, j < m], self.term(G, j), depth)
            if not ok:
                bad.append((m, G))
        if not bad:
            return "discharged", ""
        if len(bad) == 1:
            return "unknown", "summands differ: %s" % d
        # a range that is the concatenation of the others, or that is longer by iterations adding nothing
        import itertools
        for p in itertools.permutations(bad[1:] if False else bad):
            M, G = p[0]
            parts = p[1:]
            if len(parts) <= 3 and self.valid(H + [m >= 0 for m, _ in parts], M == z3.Sum([m for m, _ in parts])):
                off, good = iv(0), True
                for m, K in parts:
                    j = z3.Int(fresh_name("sj"))
                    ok, d = self.zero(H + [j >= 0, j < m], self.term(G, simp(off + j)) + self.term(K, j), depth)
                    if not ok:
                        good = False
                        break
                    off = simp(off + m)
                if good:
                    return "discharged", ""
            if len(parts) == 1 and self.valid(H, z3.And(M >= parts[0][0], parts[0][0] >= 0)):
                m, K = parts[0]
                j = z3.Int(fresh_name("sj"))
                ok, d = self.zero(H + [j >= 0, j < m], self.term(G, j) + self.term(K, j), depth)
                if ok:
                    ok, d = self.zero(H + [j >= m, j < M], self.term(G, j), depth)
                    if ok:
                        return "discharged", ""
        return "unknown", "summands differ: %s" % d
