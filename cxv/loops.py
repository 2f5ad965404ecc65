"""Loops without bound: automatic inductive summaries.

A loop body is executed once for an arbitrary iteration j from a state in which everything the body modifies
is unknown; from the resulting transition the closed form of every modified location after m iterations is
derived by one of the rules below (each rule is an induction on m done once and for all):
  induction variable, running sum, disjunction/conjunction, last value, append, filtered append,
  indexed writes (last writer wins), insert-if-absent, scatter-add (sum over the contributing iterations).
Early exits become "the first iteration where the exit condition holds".  Anything else is Unsupported.
The same machinery summarises parallel kernels; there, race freedom is checked as an extra obligation.
"""
import os, z3
from .ast import Ty, Unsupported
from .sym import *


class MapEnum:
    """the (arbitrary but fixed) order in which one traversal visits a map"""

    def __init__(self, L, m):
        S = L.S
        ks = m.dom.sort().domain()
        nm = fresh_name("enum")
        self.dom = m.dom
        self.n = S.card(m.dom)
        act = [j for j in L.active]
        so = [I] * len(act)
        self.kf = z3.Function(nm, *(so + [I, ks]))
        self.xf = z3.Function(nm + "_idx", *(so + [ks, I]))
        self.act = act
        self.kty = m.kty
        i, k = z3.Int(nm + "_i"), z3.Const(nm + "_k", ks)
        key = lambda t: self.kf(*(act + [t]))
        idx = lambda t: self.xf(*(act + [t]))
        S.facts.append(L.close(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(z3.Select(m.dom, key(i)), idx(key(i)) == i)), patterns=[key(i)])))
        S.facts.append(L.close(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(0 <= idx(k), idx(k) < self.n, key(idx(k)) == k)),
                                         patterns=[idx(k)] if z3.is_K(m.dom) or z3.is_store(m.dom) else [z3.Select(m.dom, k)])))
        if m.kind in ("map", "set") and ks.eq(Str):
            L.X.std.str_order()
            lt = z3.Function("strless", Str, Str, B)
            a, b = z3.Ints(nm + "_a " + nm + "_b")
            S.facts.append(L.close(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), lt(key(a), key(b))), patterns=[z3.MultiPattern(key(a), key(b))])))

    def key(self, t):
        return self.kf(*(self.act + [t]))


class SumSym:
    """SUM(args..., m) = sum of body over j in [0, m)"""

    def __init__(self, decl, act, t, j, body):
        self.decl, self.act, self.t, self.j, self.body = decl, act, t, j, body


def leaves(v, path=()):
    if isinstance(v, z3.ExprRef):
        yield path, v
    elif isinstance(v, St):
        for k, x in v.f.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, SeqV):
        yield path + ("n",), v.n
        yield path + ("arr",), v.arr
    elif isinstance(v, MapV):
        yield path + ("dom",), v.dom
        yield path + ("val",), v.val
    elif isinstance(v, OptV):
        yield path + ("has",), v.has
        yield from leaves(v.v, path + ("v",))
    elif isinstance(v, VarV):
        yield path + ("idx",), v.idx
        for i, x in enumerate(v.vals):
            yield from leaves(x, path + (i,))
    elif isinstance(v, SpanV):
        yield path + ("off",), v.off
        yield path + ("n",), v.n
    elif isinstance(v, ItV):
        if isinstance(v.pos, z3.ExprRef):
            yield path + ("pos",), v.pos
        if isinstance(v.key, z3.ExprRef):
            yield path + ("key",), v.key
        if isinstance(v.end, z3.ExprRef):
            yield path + ("end",), v.end
    elif isinstance(v, Path):
        if v.steps and v.steps[-1][0] == "i":
            yield path + ("pidx",), v.steps[-1][1]


def setleaf(v, path, t):
    if not path:
        return t
    k, r = path[0], path[1:]
    if isinstance(v, St):
        return v.with_(k, setleaf(v.f[k], r, t))
    if isinstance(v, SeqV):
        return SeqV(v.ety, t if k == "n" else v.n, t if k == "arr" else v.arr)
    if isinstance(v, MapV):
        return MapV(v.kty, v.vty, t if k == "dom" else v.dom, t if k == "val" else v.val, v.kind)
    if isinstance(v, OptV):
        return OptV(v.ety, t if k == "has" else v.has, setleaf(v.v, r, t) if k == "v" else v.v)
    if isinstance(v, VarV):
        if k == "idx":
            return VarV(v.tys, t, v.vals)
        vs = list(v.vals)
        vs[k] = setleaf(vs[k], r, t)
        return VarV(v.tys, v.idx, vs)
    if isinstance(v, SpanV):
        return SpanV(v.base, t if k == "off" else v.off, t if k == "n" else v.n, v.ety)
    if isinstance(v, ItV):
        return ItV(v.kind, v.cont, t if k == "pos" else v.pos, t if k == "key" else v.key, t if k == "end" else v.end, v.enum)
    if isinstance(v, Path):
        return Path(v.root, v.steps[:-1] + (("i", t),))
    raise Unsupported("setleaf")


def shape(v):
    if isinstance(v, z3.ExprRef):
        return "E"
    if isinstance(v, St):
        return ("St", str(v.cls), tuple((k, shape(x)) for k, x in v.f.items()))
    if isinstance(v, Path):
        st = v.steps[:-1] if v.steps and v.steps[-1][0] == "i" else v.steps
        return ("P", v.root, repr(st), bool(v.steps) and v.steps[-1][0] == "i")
    if isinstance(v, ItV):
        return ("It", v.kind, repr(v.cont), v.pos is None, v.key is None, v.end is None)
    if isinstance(v, SpanV):
        return ("Span", repr(v.base))
    if isinstance(v, OptV):
        return ("Opt", shape(v.v))
    if isinstance(v, VarV):
        return ("Var", tuple(shape(x) for x in v.vals))
    if isinstance(v, (ClosV, FnPtr, PyFn, Opaque)) or v is NULL or v is None:
        return type(v).__name__
    return type(v).__name__


def push(acc, v):
    """a component of a conditional value"""
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        return z3.If(c, push(acc, a), push(acc, b))
    return acc(v)


class Leaf:
    def __init__(self, root, path, init, x0):
        self.root, self.path, self.init, self.x0 = root, path, init, x0
        self.F = None          # transition term
        self.closed = None     # m -> term

    def __repr__(self):
        return "%s%s" % (self.root, self.path)


class Tickets(dict):
    def __init__(self, store):
        self.roots = set(store)
        self.used = set()


class Ticket:
    def __init__(self, root, f, act, idx):
        self.root, self.f, self.act, self.idx = root, f, act, idx
        self.keep = []                                                # terms whose identity names the ticket


class Loops:
    def __init__(self, X):
        self.X = X
        self.S = X.S
        self.went_on = []
        self.active = []       # (iteration constants of enclosing loops being generalised)
        self.ranges = []       # their range conditions
        self.sums = {}         # decl name -> SumSym
        self.defs = {}         # array function -> (active consts, m, t, value of element t after m iterations)
        self.sumdefs = set()   # those whose value mentions a sum
        self.filters = {}      # decl name -> (cond fn j->Bool, sel decl)
        self.races = []        # obligations collected for parallel loops: (what, pc, cond)
        self.nloops = 0
        self.tickets = []      # one entry per loop being summarised: source location of a fetch-and-add -> its ticket function
        self.sumkeys = {}      # sums with the same terms are the same sum

    # ------------------------------------------------------------------ utilities
    def enum(self, m):
        return MapEnum(self, m)

    def close(self, f):
        """quantify a fact over the active iteration variables"""
        act = [j for j in self.active if mentions(f, {j.get_id()})]
        if not act:
            return f
        rg = [r for r in self.ranges]
        return z3.ForAll(act, z3.Implies(z3.And(*rg), f) if rg else f)

    def fun(self, nm, *sorts):
        """fresh function that may depend on the active iteration variables; returns args -> term"""
        act = list(self.active)
        f = z3.Function(fresh_name(nm), *([I] * len(act) + list(sorts)))
        return (lambda *a: f(*(act + list(a)))), f, act

    def fact(self, f):
        self.S.facts.append(self.close(f))

    def define(self, f, act, m, t, body):
        """element t of the array after m iterations"""
        self.defs[f.name()] = (list(act), m, t, body)
        st, seen = [body], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in self.sums or x.decl().name() in self.sumdefs):
                self.sumdefs.add(f.name())
                return
            st.extend(x.children())

    def crossing(self, E, j):
        """E is j >= a: the first iteration it holds in"""
        neg = z3.is_not(E)
        if neg:
            E = E.arg(0)
        if not (z3.is_le(E) or z3.is_ge(E) or z3.is_lt(E) or z3.is_gt(E)) or not E.arg(0).sort().eq(I):
            return None
        a, b = E.children()
        if z3.is_ge(E) or z3.is_gt(E):
            a, b = b, a
        strict = z3.is_lt(E) or z3.is_gt(E)
        if neg:
            a, b, strict = b, a, not strict
        # a <= b or a < b
        d = simp(b - a - (1 if strict else 0))
        k = simp(d - j)
        if mentions(k, {j.get_id()}):
            return None
        return simp(z3.If(k <= 0, -k, iv(0)))

    def settle(self, st, m):
        """the branch of a conditional that the state decides"""
        if z3.is_app_of(m, z3.Z3_OP_ITE):
            if self.valid(st, m.arg(0)):
                return m.arg(1)
            if self.valid(st, z3.Not(m.arg(0))):
                return m.arg(2)
        return m

    def advance(self, outs, L, x):
        """the constant by which every iteration advances this integer leaf"""
        if not x.sort().eq(I):
            return None
        ds = [simp(self.leaf(o.st, L.root, L.path) - x) for o in outs if o.k in ("next", "cont")]
        return ds[0] if ds and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds) else None

    def defined_by(self, before, x0):
        """has running the body introduced symbols whose definition mentions x0?"""
        nf, sums, defs = before
        me = {x0.get_id()}
        return any(mentions(self.sums[k].body, me) for k in self.sums if k not in sums) or \
            any(mentions(self.defs[k][3], me) for k in self.defs if k not in defs and z3.is_expr(self.defs[k][3]))

    def valid(self, st, goal, extra=(), timeout=1500):
        goal = simp(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        s = z3.Solver()
        s.set("timeout", timeout)
        ematch(s)
        s.add(*st.pc)
        s.add(*extra)
        s.add(*self.ranges)
        s.add(*self.S.lit_facts())
        from .exec import has_quant
        s.add(*[f for f in self.S.facts])
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    # ------------------------------------------------------------------ the summariser
    def run(self, st, step, N=None, parallel=False, what="loop", private=()):
        """step(st, j) -> Outs with kinds next / done / brk / ret / thr / exit.  Returns Outs (next = after loop)."""
        self.tickets.append(Tickets(st.store))
        try:
            return self.run1(st, step, N, parallel, what, private)
        finally:
            self.tickets.pop()

    def run1(self, st, step, N, parallel, what, private):
        X = self.X
        self.nloops += 1
        st0 = st
        j = z3.Int(fresh_name("j"))
        rng = [j >= 0] + ([j < N] if N is not None else [])
        ctr0 = next_ctr()
        # --- pass 1: modified leaves
        lv = {}
        nact = len(self.active)
        easy = {}      # leaves that advance by a constant: their value in iteration j is known from the start
        for it in range(12):
            store = dict(st0.store)
            for L in lv.values():
                store[L.root] = setleaf(store[L.root], L.path, easy[(L.root, L.path)] if (L.root, L.path) in easy else L.x0)
            ndefs = (len(self.S.facts), set(self.sums), set(self.defs))
            s = st0.copy()
            s.store = store
            s = s.assume(z3.And(*rng))
            self.active.append(j)
            self.ranges.append(z3.And(*rng))
            nf = len(self.S.facts)
            self.tickets[-1].used = set()
            try:
                outs = step(s, j)
            finally:
                self.active.pop()
                self.ranges.pop()
            if not X.feasible(st0.assume(z3.And(*rng))) and N is not None:
                pass
            changed = False
            for o in outs:
                if o.k not in ("next", "cont"):
                    continue
                for r, v1 in o.st.store.items():
                    if r not in store:
                        if r in X.S.lazy or str(r).startswith("static:"):
                            # materialised inside the loop: make it part of the initial state
                            st0 = st0.copy()
                            st0.store[r] = X.S.fresh(X.S.lazy[r], "val%s" % (r,)) if r in X.S.lazy else self.static_init(r, v1)
                            changed = True
                        continue
                    v0 = store[r]
                    if v0 is v1:
                        continue
                    if shape(v0) != shape(v1):
                        raise Unsupported("loop changes the structure of %s" % r)
                    for (p, t0), (_, t1) in zip(leaves(v0), leaves(v1)):
                        if t0.eq(t1):
                            continue
                        if (r, p) not in lv:
                            if not t0.sort().eq(t1.sort()):
                                raise Unsupported("loop changes sort")
                            lv[(r, p)] = Leaf(r, p, self.leaf(st0, r, p), z3.Const(fresh_name("hv_" + "_".join(map(str, p[-2:]))), t0.sort()))
                            if p and p[-1] == "n" and isinstance(self.parent(v0, p), SeqV):
                                self.S.fact(lv[(r, p)].x0 >= 0)
                            changed = True
            if not changed:
                # symbols defined by an inner loop would be defined in terms of an arbitrary counter: run again with its real value
                e2 = dict(easy)
                for key, L in lv.items():
                    x = easy.get(key, L.x0)
                    d = self.advance(outs, L, x)
                    if key in easy:
                        if d is None or not d.eq(L.step):
                            raise Unsupported("loop counter")
                    elif d is not None and self.defined_by(ndefs, L.x0):
                        L.step = d
                        e2[key] = simp(L.init + d * j)
                if len(e2) == len(easy):
                    break
                easy = e2
        else:
            raise Unsupported("loop modifications do not stabilise")
        nexts = [o for o in outs if o.k in ("next", "cont")]
        exits = [o for o in outs if o.k not in ("next", "cont")]
        base = len(s.pc)

        def rel(o):
            return z3.And(*o.st.pc[base:]) if len(o.st.pc) > base else z3.BoolVal(True)
        # --- transitions
        hv = {L.x0.get_id(): L for L in lv.values()}
        common = set.intersection(*[{q.get_id() for q in o.st.pc[base:]} for o in nexts]) if nexts else set()

        def rel1(o):
            """what distinguishes this way of continuing from the others"""
            return z3.And(*[q for q in o.st.pc[base:] if q.get_id() not in common])
        for L in lv.values():
            ts = [(rel1(o), self.leaf(o.st, L.root, L.path)) for o in nexts]
            if (L.root, L.path) in easy:
                L.F = L.Fs = L.x0 + L.step
                L.closed = lambda m, L=L: simp(L.init + L.step * m)
                continue
            if not ts:
                L.F = L.x0
                continue
            F = ts[-1][1]
            for c, t in reversed(ts[:-1]):
                F = t if t.eq(F) else z3.If(c, t, F)
            L.F = self.per_iter(simp(F), j, ctr0, hv)
        E = self.per_iter(simp(z3.Or(*[rel(o) for o in exits])) if exits else z3.BoolVal(False), j, ctr0, hv)
        # --- closed forms
        todo = [L for L in lv.values() if (L.root, L.path) not in easy]
        tick = {}
        for T in [self.tickets[-1][q] for q in self.tickets[-1].used]:
            tick.setdefault(T.root, []).append(T)
        todo.sort(key=lambda L: L.root not in tick)
        progress = True
        sub = []
        while todo and progress:
            progress = False
            for L in list(todo):
                deps = {i for i in hv if mentions(L.F, {i})} - {L.x0.get_id()}
                if any(hv[i].closed is None for i in deps):
                    continue
                F = z3.substitute(L.F, *[(hv[i].x0, hv[i].closed(j)) for i in deps]) if deps else L.F
                L.Fs = simp(F)
                # an iteration that was followed by another one did not leave the loop
                from .exec import has_quant
                known = {i for i in hv if mentions(E, {i})}
                more = []
                if exits and all(hv[i].closed is not None for i in known):
                    more = [simp(z3.Not(z3.substitute(E, *[(hv[i].x0, hv[i].closed(j)) for i in known]) if known else E))]
                self.went_on = [q for q in more if not has_quant(q) and not z3.is_true(q)]
                cf = self.closed_form(st0, L, L.Fs, j, rng, N, lv, parallel, E)
                if cf is not None:
                    L.closed = cf
                    if L.root in tick:
                        self.ticket_facts(st0, L, tick[L.root], j, N, exits, E, hv)
                    todo.remove(L)
                    progress = True
        if todo:
            raise Unsupported("no closed form for %s in loop: %s" % (todo[0].path, str(todo[0].F)[:int(os.environ.get("DBGN", "200"))]))
        if parallel:
            self.check_races(st0, {k: L for k, L in lv.items() if L.root not in private}, outs, j, rng, what, lv)

        def state_at(m):
            s2 = st0.copy()
            for L in lv.values():
                s2.store[L.root] = setleaf(s2.store[L.root], L.path, simp(L.closed(m)))
            return s2
        bad = mentions(E, set(hv))
        if bad:
            E = simp(z3.substitute(E, *[(L.x0, L.closed(j)) for L in lv.values()]))
        Ef = lambda t: z3.substitute(E, (j, t))
        res = []
        # closing run from the closed form: events, facts for all iterations
        tk = self.tickets[-1]
        for key in list(tk.used):
            T = tk[key]
            ix = simp(z3.substitute(T.idx, *[(L.x0, L.closed(j)) for L in lv.values()])) if lv else T.idx
            tk[(key[0], ix.get_id())] = T
            T.keep.append(ix)
        self.active.append(j)
        self.ranges.append(z3.And(*rng))
        nf = len(self.S.facts)
        try:
            s = state_at(j).assume(z3.And(*rng))
            if not z3.is_false(E):
                s = s
            outs2 = step(s, j)
        finally:
            self.active.pop()
            self.ranges.pop()
        newf = self.S.facts[nf:]
        evs = []
        for f in newf:
            if mentions(f, {j.get_id()}):
                try:
                    self.S.facts.append(self.close(z3.ForAll([j], z3.Implies(z3.And(*rng), f))))
                    self.S.weak[self.S.facts[-1].get_id()] = ("range", self.S.facts[-1])
                except z3.Z3Exception:
                    pass
        pre, raw = [], {}
        for o in outs2:
            for e in o.st.log[len(st0.log):]:
                if e[0] == "pre":
                    g = simp(e[1])
                    if z3.is_true(g) or g.get_id() in raw:
                        continue
                    raw[g.get_id()] = (g, e[2])
                    pre.append(("pre", z3.ForAll([j], z3.Implies(z3.And(*rng), g)), e[2]))
                else:
                    evs.append(e)
        fin_kinds = set(o.k for o in exits)
        i = z3.Int(fresh_name("i"))
        if N is None:
            if not exits:
                raise Unsupported("loop without exit")
            # iteration count: first iteration whose step leaves the loop
            m = self.crossing(E, j) if self.active or X.exact_iters else None
            if m is not None and X.exact_iters:
                m = self.settle(st0, m)
            if m is not None:
                s = state_at(m)
                s.log = st0.log + tuple(("pre", z3.ForAll([j], z3.Implies(z3.And(*(rng + [j <= m])), g)), w) for g, w in raw.values())
                res += self.finish(step(s, m), evs)
                return self.restore(res, st)
            c, _, _ = self.fun("iters", I)
            m = c()
            self.X.S.assumed.add("loops without a syntactic bound terminate")
            noexit = [m >= 0, Ef(m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(Ef(i)))), z3.Implies(m > 0, z3.Not(Ef(m - 1))), z3.Implies(m > 0, z3.Not(Ef(iv(0))))]
            s = state_at(m)
            for q in noexit:
                s = s.assume(q)
            s.log = st0.log + tuple(("pre", z3.ForAll([j], z3.Implies(z3.And(z3.And(*noexit), *(rng + [j <= m])), g)), w) for g, w in raw.values())
            res += self.finish(step(s, m), evs)
            return self.restore(res, st)
        if not exits:
            if not z3.is_int_value(simp(N)) or simp(N).as_long() >= 0:
                pass
            s = state_at(z3.If(N >= 0, N, iv(0)) if not self.valid(st0, N >= 0) else N)
            s.log = st0.log + tuple(pre) + (("loop", tuple(evs)),) if (evs or pre) else st0.log
            return self.restore([Out(s, "next")], st)
        # some iteration exits
        c, _, _ = self.fun("first", I)
        m = c()
        s = state_at(m).assume(z3.And(0 <= m, m < N)).assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(Ef(i)))))
        if X.feasible(s):
            s.log = st0.log + tuple(("pre", z3.ForAll([j], z3.Implies(z3.And(*(rng + [0 <= m, m < N, j <= m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(Ef(i))))])), g)), w) for g, w in raw.values())
            res += self.finish([o for o in step(s, m) if o.k not in ("next", "cont")], evs + pre)
        s = state_at(N).assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.Not(Ef(i)))))
        s.log = st0.log + tuple(pre) + ((("loop", tuple(evs)),) if evs else ())
        res.append(Out(s, "next"))
        return self.restore(res, st)

    def static_init(self, r, v1):
        if r in self.S.const_statics:
            return self.S.const_statics[r]
        raise Unsupported("static first touched inside a loop")

    def finish(self, outs, evs):
        r = []
        for o in outs:
            if o.k in ("next", "cont"):
                continue
            r.append(Out(o.st, "next" if o.k in ("done", "brk") else o.k, o.v))
        return r

    def restore(self, outs, st):
        for o in outs:
            o.st = o.st.copy()
            o.st.env, o.st.this, o.st.caps, o.st.depth, o.st.fn = st.env, st.this, st.caps, st.depth, st.fn
        return outs

    def leaf(self, st, r, p):
        v = st.store[r]
        for q, t in leaves(v):
            if q == p:
                return t
        raise Unsupported("leaf vanished")

    def parent(self, v, p):
        for k in p[:-1]:
            if isinstance(v, St):
                v = v.f[k]
            elif isinstance(v, OptV):
                v = v.v
            elif isinstance(v, VarV):
                v = v.vals[k]
        return v

    def per_iter(self, t, j, ctr0, hv):
        """constants invented while executing the body differ per iteration: make them functions of j"""
        subs = []
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                try:
                    c = int(x.decl().name().rsplit("!", 1)[1])
                except ValueError:
                    continue
                if c > ctr0 and x.get_id() not in hv and not x.eq(j):
                    f = z3.Function(fresh_name("it_" + x.decl().name().split("!")[0]), I, x.sort())
                    subs.append((x, f(j)))
            elif z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return z3.substitute(t, *subs) if subs else t

    # ------------------------------------------------------------------ rules
    def closed_form(self, st0, L, F, j, rng, N, lv, parallel, E):
        x0, init = L.x0, L.init
        so = x0.sort()
        me = {x0.get_id()}
        at = lambda e: (lambda t: z3.substitute(e, (j, t)))
        if not mentions(F, me):
            # last value
            f = at(F)
            return lambda m: z3.If(m > 0, f(m - 1), init)
        if F.eq(x0):
            return lambda m: init
        if so.eq(I) or so.eq(R):
            d = simp(F - x0)
            if mentions(d, me):
                d = simp(simp(z3.simplify(F - x0, som=True, arith_lhs=False)))
                d = self.push_minus(F, x0)
            if d is not None and not mentions(d, me):
                if not mentions(d, {j.get_id()}):
                    return lambda m: simp(init + d * (z3.ToReal(m) if so.eq(R) else m))
                c = self.count_cond(d)
                if c is not None and so.eq(I):
                    return self.counter(init, at(c))
                return self.sum_form(init, d, j, so)
            # running max/min
            return self.extremum(st0, F, x0, init, j, me)
        if so.eq(B):
            t1 = simp(z3.substitute(F, (x0, z3.BoolVal(True))))
            t0 = simp(z3.substitute(F, (x0, z3.BoolVal(False))))
            if z3.is_true(t1):                       # x0 or c
                return self.exists_form(init, at(t0), True)
            if z3.is_false(t0):                      # x0 and c
                return self.exists_form(init, at(simp(z3.Not(t1))), False)
        # conditional last value
        r = self.cond_last(L, F, j, me, at)
        if r is not None:
            return r
        if so.eq(Str):
            # text accumulated over the iterations (messages): left arbitrary; an obligation whose refutation
            # depends on it is undecided, never failed
            t, f, _ = self.fun("accumtext", I, Str)
            self.S.taint.add("accumtext")
            self.fact(t(iv(0)) == init)
            return t
        if so.kind() == z3.Z3_ARRAY_SORT:
            return self.array_form(st0, L, F, j, rng, N, lv, parallel, E)
        return None

    def push_minus(self, F, x0):
        if F.eq(x0):
            return z3.IntVal(0) if x0.sort().eq(I) else z3.RealVal(0)
        if z3.is_app_of(F, z3.Z3_OP_ITE):
            c, a, b = F.children()
            a, b = self.push_minus(a, x0), self.push_minus(b, x0)
            if a is None or b is None:
                return None
            return simp(z3.If(c, a, b))
        d = simp(F - x0)
        return None if mentions(d, {x0.get_id()}) else d

    def count_cond(self, d):
        if z3.is_app_of(d, z3.Z3_OP_ITE):
            c, a, b = d.children()
            if z3.is_int_value(a) and z3.is_int_value(b):
                if (a.as_long(), b.as_long()) == (1, 0):
                    return c
                if (a.as_long(), b.as_long()) == (0, 1):
                    return z3.Not(c)
        return None

    def counter(self, init, c):
        cnt, cf, act = self.fun("count", I, I)
        sel, sf, _ = self.fun("select", I, I)
        i, t, m = z3.Int(fresh_name("i")), z3.Int(fresh_name("t")), z3.Int(fresh_name("m"))
        self.fact(cnt(iv(0)) == 0)
        self.fact(z3.ForAll([m], z3.Implies(m >= 0, z3.And(cnt(m) >= 0, cnt(m) <= m)), patterns=[cnt(m)]))
        # iterations selected before m are numbered 0 .. cnt(m)-1
        self.fact(fa([i, m], z3.Implies(z3.And(0 <= i, i < m, c(i)), z3.And(cnt(i) < cnt(m), sel(cnt(i)) == i)), (cnt(i), cnt(m)), (self.trig(c(i), i), cnt(m))))
        self.fact(z3.ForAll([i, m], z3.Implies(z3.And(0 <= i, i <= m), cnt(i) <= cnt(m)), patterns=[z3.MultiPattern(cnt(i), cnt(m))]))
        self.fact(z3.ForAll([t, m], z3.Implies(z3.And(0 <= t, t < cnt(m), m >= 0), z3.And(0 <= sel(t), sel(t) < m, c(sel(t)), cnt(sel(t)) == t)), patterns=[z3.MultiPattern(sel(t), cnt(m))]))
        self.fact(z3.ForAll([m], z3.Implies(z3.And(m >= 0, z3.Not(c(m))), cnt(m + 1) == cnt(m)), patterns=[cnt(m + 1)]))
        self.filters[cf.name()] = (c, sel, cnt, init)
        return lambda m: init + cnt(m)

    # --- tickets: what fetch-and-add returns when the iterations come in any order
    def ticket(self, st, p, key):
        """the value fetched by the fetch-and-add at this place in the current iteration (None: not inside a loop)"""
        if not self.tickets or not self.active or len(p.steps) < 1 or p.steps[-1][0] != "i":
            return None
        d = self.tickets[-1]
        if p.root not in d.roots:
            return None
        ix = simp(p.steps[-1][1])
        key = (key, ix.get_id())
        if key not in d:
            d[key] = Ticket(p.root, z3.Function(fresh_name("ticket"), *([I] * len(self.active) + [I])), list(self.active), ix)
        T = d[key]
        d.used.add(key)
        if T.root != p.root or len(T.act) != len(self.active) or not all(a.eq(b) for a, b in zip(T.act, self.active)):
            return None
        return T.f(*T.act)

    def ticket_facts(self, st0, L, ts, j, N, exits, E, hv):
        """increments by one of the element key(j): each fetches a value from [initial, final) of its element, all different"""
        adds = getattr(L, "adds", None)
        end = None
        if not exits and N is not None:
            end = N if self.valid(st0, N >= 0) else simp(z3.If(N >= 0, N, iv(0)))
        elif exits and N is None:
            known = [h for h in hv.values() if mentions(E, {h.x0.get_id()})]
            if all(h.closed is not None for h in known):
                end = self.crossing(simp(z3.substitute(E, *[(h.x0, h.closed(j)) for h in known]) if known else E), j)
                end = end if end is None or not self.X.exact_iters else self.settle(st0, end)
        if len(ts) != 1 or not adds or len(adds) != 1 or not z3.is_int_value(adds[0][2]) or adds[0][2].as_long() != 1 or end is None:
            raise Unsupported("fetch-and-add outside the ticket rule: %d tickets, adds %s, end %s, E %s" % (len(ts), adds, end, E))
        c, k, _ = adds[0]
        T = lambda t: ts[0].f(*(ts[0].act[:-1] + [t]))
        at = lambda e: (lambda t: z3.substitute(e, (j, t)))
        cf, kf = at(c), at(k)
        fin = L.closed(end)
        i, i2 = z3.Int(fresh_name("i")), z3.Int(fresh_name("i"))
        ok = lambda t: z3.And(0 <= t, t < end, cf(t))
        self.fact(z3.ForAll([i], z3.Implies(ok(i), z3.And(z3.Select(L.init, kf(i)) <= T(i), T(i) < z3.Select(fin, kf(i)))), patterns=[T(i)]))
        self.fact(z3.ForAll([i, i2], z3.Implies(z3.And(ok(i), ok(i2), i != i2, kf(i) == kf(i2)), T(i) != T(i2)), patterns=[z3.MultiPattern(T(i), T(i2))]))
        self.X.trusted.add("a fetch-and-add by one returns a value from [initial, final) of its element, different for every execution")

    def sum_form(self, init, d, j, so, t=None):
        sm = self.new_sum(d, j, so)
        return lambda m: init + sm(m)

    def new_sum(self, body, j, so, t=None):
        """SUM symbol: params (active..., [t], m)"""
        act = list(self.active)
        extra = [t.sort()] if t is not None else []
        key = None
        if t is not None and so.eq(I):
            ck = z3.substitute(body, (j, z3.Int("#j")), (t, z3.Const("#t", t.sort())))
            key = (tuple(a.get_id() for a in act), ck.get_id())
            if key in self.sumkeys:
                f = self.sumkeys[key][1]
                return lambda m, x: f(*(act + [x, m]))
        f = z3.Function(fresh_name("SUM"), *([I] * len(act) + extra + [I, so]))
        if key is not None:
            self.sumkeys[key] = (ck, f)
            if z3.is_app_of(body, z3.Z3_OP_ITE) and all(z3.is_int_value(x) and x.as_long() >= 0 for x in body.children()[1:]):
                tt, mm = z3.Const(fresh_name("t"), t.sort()), z3.Int(fresh_name("m"))
                self.fact(z3.ForAll([tt, mm], z3.Implies(mm >= 0, f(*(act + [tt, mm])) >= 0), patterns=[f(*(act + [tt, mm]))]))
        self.sums[f.name()] = SumSym(f, act, t, j, body)
        zero = z3.IntVal(0) if so.eq(I) else z3.RealVal(0)
        if t is not None:
            tt = z3.Const(fresh_name("t"), t.sort())
            self.fact(z3.ForAll([tt], f(*(act + [tt, iv(0)])) == zero))
            self.S.weak[self.S.facts[-1].get_id()] = ("zero", self.S.facts[-1])
            return lambda m, x: f(*(act + [x, m]))
        self.fact(f(*(act + [iv(0)])) == zero)
        return lambda m: f(*(act + [m]))

    def exists_form(self, init, c, isor):
        hit, _, _ = self.fun("hit", I, B)
        w, _, _ = self.fun("wit", I, I)
        i, m = z3.Int(fresh_name("i")), z3.Int(fresh_name("m"))
        self.fact(z3.ForAll([m], z3.Implies(hit(m), z3.And(0 <= w(m), w(m) < m, c(w(m)))), patterns=[hit(m)]))
        self.fact(z3.ForAll([m], z3.Implies(z3.Not(hit(m)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(c(i))))), patterns=[hit(m)]))
        if isor:
            return lambda m: z3.Or(init, hit(m))
        return lambda m: z3.And(init, z3.Not(hit(m)))

    def cond_last(self, L, F, j, me, at):
        """F = if c then v else x0, with c and v independent of x0"""
        def split(t):
            if t.eq(L.x0):
                return []
            if not mentions(t, me):
                return [(z3.BoolVal(True), t)]
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                if mentions(c, me):
                    return None
                a, b = split(a), split(b)
                if a is None or b is None:
                    return None
                return [(simp(z3.And(c, x)), y) for x, y in a] + [(simp(z3.And(z3.Not(c), x)), y) for x, y in b]
            return None
        sp = split(F)
        if not sp:
            return None
        c = simp(z3.Or(*[x for x, _ in sp]))
        v = sp[-1][1]
        for x, y in reversed(sp[:-1]):
            v = z3.If(x, y, v)
        cf, vf = at(c), at(v)
        last, _, _ = self.fun("last", I, I)
        i, m = z3.Int(fresh_name("i")), z3.Int(fresh_name("m"))
        self.fact(z3.ForAll([m], z3.And(last(m) >= -1, z3.Implies(m >= 0, last(m) < m), z3.Implies(last(m) >= 0, cf(last(m)))), patterns=[last(m)]))
        self.fact(z3.ForAll([m, i], z3.Implies(z3.And(last(m) < i, 0 <= i, i < m), z3.Not(cf(i))), patterns=[z3.MultiPattern(last(m), self.trig(cf(i), i))] if self.trig(cf(i), i) is not None else []))
        return lambda m: z3.If(last(m) >= 0, vf(last(m)), L.init)

    def trig(self, t, i):
        """a subterm usable as trigger for i"""
        st = [t]
        while st:
            x = st.pop()
            if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and any(c.eq(i) for c in x.children()) and patok(x):
                return x
            st.extend(x.children() if z3.is_app(x) else [])
        return None

    def extremum(self, st0, F, x0, init, j, me):
        if not z3.is_app_of(F, z3.Z3_OP_ITE):
            return None
        c, a, b = F.children()
        e = a if b.eq(x0) else (b if a.eq(x0) else None)
        if e is None or mentions(e, me):
            return None
        for mx in (True, False):
            want = z3.If(e > x0, e, x0) if mx else z3.If(e < x0, e, x0)
            if self.valid(st0, F == want):
                r, _, _ = self.fun("ext", I, x0.sort())
                ef = lambda t: z3.substitute(e, (j, t))
                i, m = z3.Int(fresh_name("i")), z3.Int(fresh_name("m"))
                w, _, _ = self.fun("extw", I, I)
                ge = (lambda p, q: p >= q) if mx else (lambda p, q: p <= q)
                self.fact(z3.ForAll([m], z3.And(ge(r(m), init), z3.Or(r(m) == init, z3.And(0 <= w(m), w(m) < m, r(m) == ef(w(m))))), patterns=[r(m)]))
                self.fact(z3.ForAll([m, i], z3.Implies(z3.And(0 <= i, i < m), ge(r(m), ef(i)))))
                for a, c in self.shifts(e, j):
                    u = z3.Int(fresh_name("u"))
                    self.fact(z3.ForAll([m, u], z3.Implies(z3.And(0 <= u - c, u - c < m), ge(r(m), simp(ef(u - c)))), patterns=[z3.MultiPattern(r(m), z3.Select(a, u))]))
                return r
        return None

    def shifts(self, e, j):
        """(array, offset) of the reads array[j + offset] in e"""
        out, seen, st = [], set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_SELECT) and x.arg(1).sort().eq(I) and not mentions(x.arg(0), {j.get_id()}):
                c = simp(x.arg(1) - j)
                if not mentions(c, {j.get_id()}):
                    out.append((x.arg(0), c))
            st.extend(x.children())
        return out

    # --- arrays
    def chain(self, t, x0, cond=None):
        """t as a list of (cond, idx, value) writes over x0, in order; None if not of that form"""
        if t.eq(x0):
            return []
        if z3.is_store(t):
            b = self.chain(t.arg(0), x0)
            return None if b is None else b + [(z3.BoolVal(True), t.arg(1), t.arg(2))]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            a, b = self.chain(a, x0), self.chain(b, x0)
            if a is None or b is None:
                return None
            return [(simp(z3.And(c, q)), i, v) for q, i, v in a] + [(simp(z3.And(z3.Not(c), q)), i, v) for q, i, v in b]
        return None

    def array_form(self, st0, L, F, j, rng, N, lv, parallel, E):
        x0, init = L.x0, L.init
        me = {x0.get_id()}
        pw = self.pointwise(L, F, j)
        if pw is not None:
            return pw
        ch = self.chain(F, x0)
        if not ch:
            return None
        L.chain = ch
        asort = x0.sort()
        ks, es = asort.domain(), asort.range()
        at = lambda e: (lambda t: z3.substitute(e, (j, t)))
        # all writes at one location? fold them
        same = all(i.eq(ch[0][1]) or self.valid(st0, i == ch[0][1], rng) for _, i, _ in ch)
        if same:
            k = ch[0][1]
            c = simp(z3.Or(*[q for q, _, _ in ch]))
            v = ch[0][2]                    # used only where some write happens
            for q, _, w in ch[1:]:
                v = simp(z3.If(q, w, v))
            return self.single(st0, L, F, c, k, v, j, rng, N, lv, at)
        # several locations per iteration: scatter accumulate
        return self.scatter(st0, L, ch, j, rng, at)

    def pointwise(self, L, F, j):
        """every iteration adds something to every element (a whole-array update known by an assumed contract):
        arr_m[t] = init[t] + sum over the iterations"""
        x0, init = L.x0, L.init
        if not self.has_lambda(F):
            return None
        ks, es = x0.sort().domain(), x0.sort().range()
        t = z3.Const(fresh_name("t"), ks)
        v = simp(self.sel(F, t))
        d = self.delta1(es, x0, t, v, z3.Select(x0, t), z3.Select(x0, t))
        if d is None:
            return None
        m = z3.Int(fresh_name("m"))
        A, Af, act = self.fun("updated", I, x0.sort())

        def build(so, old, e):
            if so.eq(I) or so.eq(R):
                return old + self.new_sum(simp(e), j, so, t)(m, t)
            return so.constructor(0)(*[build(so.constructor(0).domain(i), so.accessor(0, i)(old), e[i]) for i in range(so.constructor(0).arity())])
        body = simp(build(es, z3.Select(init, t), d))
        self.define(Af, act, m, t, body)
        self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == body), patterns=[z3.Select(A(m), t)]))
        return A

    def has_lambda(self, F):
        if z3.is_quantifier(F):
            return F.is_lambda()
        return z3.is_app_of(F, z3.Z3_OP_ITE) and any(self.has_lambda(x) for x in F.children()[1:])

    def sel(self, F, t):
        if z3.is_quantifier(F) and F.is_lambda():
            return z3.substitute_vars(F.body(), t)
        if z3.is_app_of(F, z3.Z3_OP_ITE):
            c, a, b = F.children()
            return z3.If(c, self.sel(a, t), self.sel(b, t))
        return z3.Select(F, t)

    def single(self, st0, L, F, c, k, v, j, rng, N, lv, at):
        x0, init = L.x0, L.init
        me = {x0.get_id()}
        ks, es = x0.sort().domain(), x0.sort().range()
        if mentions(k, me) or mentions(c, me):
            if not self.self_reads_only(st0, c, x0, k) or mentions(k, me):
                return None
        if mentions(v, me) or mentions(c, me):
            # insert-if-absent on a map value
            fw = self.first_wins(L, c, k, v, j, lv, at)
            if fw is not None:
                return fw
            inj = self.injective(st0, k, c, j, rng)
            if inj and self.self_reads_only(st0, v, x0, k) and self.self_reads_only(st0, c, x0, k):
                v = simp(z3.substitute(v, (x0, init)))
                c = simp(z3.substitute(c, (x0, init)))
            elif not mentions(c, me) and self.unwritten_reads(st0, v, x0, k, c, j, rng):
                v = simp(z3.substitute(v, (x0, init)))
            else:
                return self.scatter(st0, L, [(c, k, v)], j, rng, at)
        cf, kf, vf = at(c), at(k), at(v)
        m, t, i = z3.Int(fresh_name("m")), z3.Const(fresh_name("t"), ks), z3.Int(fresh_name("i"))
        # append at a filter counter
        if not z3.is_true(simp(c)) and ks.eq(I):
            for nm, (fc, sel, cnt, n0) in self.filters.items():
                if self.valid(st0, k == n0 + cnt(j), rng) and self.valid(st0, fc(j) == c, rng):
                    A, Af, act = self.fun("filtered", I, x0.sort())
                    self.define(Af, act, m, t, z3.If(z3.And(t >= n0, t < n0 + cnt(m)), vf(sel(t - n0)), z3.Select(init, t)))
                    self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == z3.If(z3.And(t >= n0, t < n0 + cnt(m)), vf(sel(t - n0)), z3.Select(init, t))), patterns=[z3.Select(A(m), t)]))
                    self.fact(fa([m, i], z3.Implies(z3.And(0 <= i, i < m, cf(i)), z3.Select(A(m), n0 + cnt(i)) == vf(i)), (A(m), self.trig(vf(i), i)), (A(m), self.trig(cf(i), i))))
                    return A
        A, Af, act = self.fun("written", I, x0.sort())
        if ks.eq(I):
            k0 = kf(iv(0))
            if z3.is_true(simp(kf(j) == k0 + j)) or self.valid(st0, kf(j) == k0 + j, rng):
                u = t - k0
                self.define(Af, act, m, t, z3.If(z3.And(u >= 0, u < m, cf(u)), vf(u), z3.Select(init, t)))
                self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == z3.If(z3.And(u >= 0, u < m, cf(u)), vf(u), z3.Select(init, t))), patterns=[z3.Select(A(m), t)]))
                tr = self.trig(vf(i), i)
                if tr is not None:
                    self.fact(fa([m, i], z3.Implies(z3.And(0 <= i, i < m, cf(i)), z3.Select(A(m), simp(k0 + i)) == vf(i)), (A(m), tr)))
                L.inj = True
                return A
        # arbitrary keys: last writer
        W, _, _ = self.fun("writer", I, ks, I)
        w = W(m, t)
        hitc = z3.And(0 <= w, w < m, kf(w) == t, cf(w))
        self.define(Af, act, m, t, z3.If(hitc, vf(w), z3.Select(init, t)))
        self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == z3.If(hitc, vf(w), z3.Select(init, t))), patterns=[z3.Select(A(m), t)]))
        # whatever is written by iteration i < m has a writer, and the writer is the last one
        body = z3.Implies(z3.And(0 <= i, i < m, cf(i)), z3.And(W(m, kf(i)) >= i, W(m, kf(i)) < m, kf(W(m, kf(i))) == kf(i), cf(W(m, kf(i)))))
        self.fact(z3.ForAll([m, i], body, patterns=self.pats(A(m), kf(i), i, W, m)))
        self.fact(z3.ForAll([m, t, i], z3.Implies(z3.And(0 <= i, i < m, cf(i), kf(i) == t), z3.And(W(m, t) >= i, W(m, t) < m, kf(W(m, t)) == t, cf(W(m, t))))))
        self.S.weak[self.S.facts[-1].get_id()] = ("writer", self.S.facts[-1])
        return A

    def pats(self, am, ki, i, W, m):
        tr = self.trig(ki, i)
        if tr is None:
            return []
        return [z3.MultiPattern(am, tr)]

    def first_wins(self, L, c, k, v, j, lv, at):
        """val' = if dom[k] then val[k] else e   next to   dom' = dom + k"""
        if L.path[-1] != "val":
            return None
        D = lv.get((L.root, L.path[:-1] + ("dom",)))
        if D is None or D.F is None:
            return None
        ch = self.chain(D.F, D.x0)
        if not ch or len(ch) != 1 or not z3.is_true(simp(ch[0][2])) or not ch[0][1].eq(k):
            return None
        # rebuild the transition with dom unresolved
        Fv = L.F
        chv = self.chain(Fv, L.x0)
        if not chv or len(chv) != 1:
            return None
        cc, kk, vv = chv[0]
        d = z3.Select(D.x0, kk)
        full = simp(z3.If(cc, vv, z3.Select(L.x0, kk)))
        tkeep = simp(z3.substitute(full, (d, z3.BoolVal(True))))
        tnew = simp(z3.substitute(full, (d, z3.BoolVal(False))))
        if not tkeep.eq(simp(z3.Select(L.x0, kk))):
            return None
        others = {x.x0.get_id() for x in lv.values()}
        if mentions(tnew, others) or mentions(kk, others):
            return None
        kf, vf = at(kk), at(tnew)
        ks = L.x0.sort().domain()
        m, t, i = z3.Int(fresh_name("m")), z3.Const(fresh_name("t"), ks), z3.Int(fresh_name("i"))
        A, _, _ = self.fun("kept", I, L.x0.sort())
        W, _, _ = self.fun("firstw", I, ks, I)
        w = W(m, t)
        hit = z3.And(0 <= w, w < m, kf(w) == t)
        self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == z3.If(z3.And(z3.Not(z3.Select(D.init, t)), hit), vf(w), z3.Select(L.init, t))), patterns=[z3.Select(A(m), t)]))
        self.fact(z3.ForAll([m, t, i], z3.Implies(z3.And(0 <= i, i < m, kf(i) == t), z3.And(0 <= W(m, t), W(m, t) <= i, kf(W(m, t)) == t))))
        return A

    def unwritten_reads(self, st0, v, x0, k, c, j, rng):
        """every read of x0 in v is at an index no iteration writes"""
        me = {x0.get_id()}
        stack, seen, idx = [v], set(), []
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(x0):
                return False
            if z3.is_app_of(x, z3.Z3_OP_SELECT) and x.arg(0).eq(x0):
                if mentions(x.arg(1), me):
                    return False
                idx.append(x.arg(1))
                continue
            if z3.is_quantifier(x):
                if mentions(x, me):
                    return False
                continue
            stack.extend(x.children())
        j2 = z3.Int(fresh_name("j"))
        at2 = lambda e: z3.substitute(e, (j, j2))
        dom = list(rng) + list(self.went_on)       # iterations that do write
        rng2 = dom + [at2(r) for r in dom]
        return all(self.valid(st0, z3.Implies(at2(c), i != at2(k)), rng2) for i in idx)

    def self_reads_only(self, st0, v, x0, k):
        """every read of x0 in v is at index k"""
        me = {x0.get_id()}
        stack = [v]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(x0):
                return False
            if z3.is_app_of(x, z3.Z3_OP_SELECT) and x.arg(0).eq(x0):
                if not (x.arg(1).eq(k) or self.valid(st0, x.arg(1) == k)):
                    return False
                stack.append(x.arg(1))
                continue
            if z3.is_quantifier(x):
                if mentions(x, me):
                    return False
                continue
            stack.extend(x.children())
        return True

    def injective(self, st0, k, c, j, rng):
        a = z3.Int(fresh_name("ja"))
        rng = rng + self.went_on
        r2 = [z3.substitute(q, (j, a)) for q in rng]
        k2 = z3.substitute(k, (j, a))
        c2 = z3.substitute(c, (j, a))
        return self.valid(st0, z3.Implies(z3.And(a != j, c, c2), k != k2), rng + r2, 3000)

    def scatter(self, st0, L, ch, j, rng, at):
        """every write adds to the old value of its location: arr_m[t] = init[t] + sum over iterations"""
        x0, init = L.x0, L.init
        me = {x0.get_id()}
        ks, es = x0.sort().domain(), x0.sort().range()
        adds = []
        done = []
        for c, k, v in ch:
            if mentions(k, me):
                return None
            d = self.delta(st0, x0, k, v, done)
            if d is None or mentions(c, me):
                return None
            adds.append((c, k, d))
            done.append((c, k, v))
        t = z3.Const(fresh_name("t"), ks)
        m = z3.Int(fresh_name("m"))
        A, Af, act = self.fun("scattered", I, x0.sort())
        L.adds = adds

        def build(so, old, deltas):
            """old + contributions, component by component"""
            if so.eq(I) or so.eq(R):
                zero = z3.RealVal(0) if so.eq(R) else iv(0)
                sms = [self.new_sum(simp(z3.If(z3.And(c, k == t), d, zero)), j, so, t) for c, k, d in deltas]
                return z3.Sum([old] + [s(m, t) for s in sms])
            if so.kind() == z3.Z3_DATATYPE_SORT and so.num_constructors() == 1:
                return so.constructor(0)(*[build(so.constructor(0).domain(i), so.accessor(0, i)(old), [(c, k, d[i]) for c, k, d in deltas]) for i in range(so.constructor(0).arity())])
            raise Unsupported("accumulation of %s" % so)
        body = simp(build(es, z3.Select(init, t), adds))
        self.define(Af, act, m, t, body)
        self.fact(z3.ForAll([m, t], z3.Implies(m >= 0, z3.Select(A(m), t) == body), patterns=[z3.Select(A(m), t)]))
        return A

    def delta(self, st0, x0, k, v, before):
        """v = x0[k] (+ earlier writes of this iteration) + d; for structures d is the list of the components' d"""
        cur = x0
        for c, kk, vv in before:
            cur = z3.If(c, z3.Store(cur, kk, vv), cur) if not z3.is_true(c) else z3.Store(cur, kk, vv)
        return self.delta1(x0.sort().range(), x0, k, v, simp(z3.Select(cur, k)), z3.Select(x0, k))

    def delta1(self, so, x0, k, v, old, old0):
        if so.eq(I) or so.eq(R):
            for o in (old, old0):
                d = simp(v - o)
                if not mentions(d, {x0.get_id()}):
                    return d
                d = self.diff(v, o, x0)
                if d is not None:
                    return d
            # v may itself be select(store(..)) + d
            return self.strip_delta(v, x0, k)
        if so.kind() == z3.Z3_DATATYPE_SORT and so.num_constructors() == 1:
            ds = []
            for i in range(so.constructor(0).arity()):
                acc = so.accessor(0, i)
                d = self.delta1(so.constructor(0).domain(i), x0, k, simp(push(acc, v)), simp(acc(old)), simp(acc(old0)))
                if d is None:
                    return None
                ds.append(d)
            return ds
        return None

    def diff(self, v, o, x0):
        """v - o through conditionals, when x0 cancels on every branch"""
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            a, b = self.diff(a, o, x0), self.diff(b, o, x0)
            if a is None or b is None or mentions(c, {x0.get_id()}):
                return None
            return simp(z3.If(c, a, b))
        d = simp(v - o)
        return None if mentions(d, {x0.get_id()}) else d

    def strip_delta(self, v, x0, k):
        if z3.is_app_of(v, z3.Z3_OP_ADD):
            rest = []
            n = 0
            for c in v.children():
                if mentions(c, {x0.get_id()}):
                    n += 1
                else:
                    rest.append(c)
            if n == 1:
                return z3.Sum(rest) if len(rest) > 1 else rest[0]
        return None

    def total(self, st, arr, n):
        """sum of the first n elements of an array that counts: the order of summation is exchanged.
        Returns (term, side conditions) or None."""
        if not z3.is_app(arr) or arr.decl().name() not in self.defs:
            return None
        act, m, t, body = self.defs[arr.decl().name()]
        args = arr.children()
        sub = list(zip(act, args[:len(act)])) + [(m, args[-1])]
        body = simp(z3.substitute(body, *sub))
        mm = args[-1]
        parts = body.children() if z3.is_add(body) else [body]
        tot, side = [], []
        for p in parts:
            if z3.is_app(p) and p.decl().name() in self.sums:
                sm = self.sums[p.decl().name()]
                b = sm.body
                if sm.t is None or not z3.is_app_of(b, z3.Z3_OP_ITE) or len(p.children()) != 2 or not p.arg(0).eq(t):
                    return None
                q, d, z = b.children()
                cs = q.children() if z3.is_and(q) else [q]
                ks = [x for x in cs if z3.is_eq(x) and any(y.eq(sm.t) for y in x.children())]
                rest = [x for x in cs if not any(x.eq(y) for y in ks)]
                if len(ks) != 1 or not z3.is_int_value(z) or z.as_long() != 0 or rest or not z3.is_int_value(d):
                    return None
                k = [y for y in ks[0].children() if not y.eq(sm.t)][0]
                if mentions(k, {sm.t.get_id()}):
                    return None
                i = z3.Int(fresh_name("i"))
                ki = z3.substitute(k, (sm.j, i))
                side.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.arg(1)), z3.And(0 <= ki, ki < n))))
                tot.append(d * p.arg(1))
                continue
            # the same value everywhere
            for v in (0, 1):
                if self.valid(st, z3.Implies(z3.And(0 <= t, t < n), p == v)):
                    tot.append(iv(v) * n)
                    break
            else:
                return None
        return simp(z3.Sum(tot)), side

    # ------------------------------------------------------------------ race freedom
    def check_races(self, st0, lv, outs, j, rng, what, allv):
        a = z3.Int(fresh_name("jb"))
        for L in lv.values():
            F = L.F
            so = L.x0.sort()
            if so.kind() != z3.Z3_ARRAY_SORT:
                self.races.append(("%s: a scalar shared by the iterations is written" % what, st0.pc, z3.BoolVal(False)))
                continue
            ch = self.chain(F, L.x0)
            if ch is None:
                raise Unsupported("race analysis")
            atom = []
            for o in outs:
                for e in o.st.log:
                    if e[0] == "atomic" and e[1].root == L.root:
                        atom.append(e[1].steps[-1][1])
            sub = [(x.x0, x.closed(j)) for x in allv.values() if x is not L and x.closed is not None]
            S1 = lambda t: z3.substitute(t, *sub) if sub else t
            for c1, k1, v1 in ch:
                at1 = any(k1.eq(q) or self.valid(st0, k1 == q, rng) for q in atom)
                c1, k1 = S1(c1), S1(k1)
                for c2, k2, v2 in ch:
                    at2 = any(k2.eq(q) or self.valid(st0, k2 == q, rng) for q in atom)
                    if at1 and at2:
                        continue
                    kk = z3.substitute(S1(k2), (j, a))
                    cc = z3.substitute(S1(c2), (j, a))
                    r2 = [z3.substitute(q, (j, a)) for q in rng]
                    self.races.append(("%s: two iterations write the same element of %s without atomics" % (what, L.root), st0.pc,
                                       z3.Implies(z3.And(*(rng + r2 + [a != j, c1, cc])), k1 != kk)))
                # plain reads of written array by other iterations
                for rd in [q for M in allv.values() for q in self.reads(M.F, L.x0, atom)]:
                    if mentions(rd, {L.x0.get_id()}):
                        raise Unsupported("indirect read in kernel")
                    kk = z3.substitute(S1(rd), (j, a))
                    r2 = [z3.substitute(q, (j, a)) for q in rng]
                    if at1 and any(rd.eq(q) for q in atom):
                        continue
                    self.races.append(("%s: an iteration reads an element of %s that another one writes" % (what, L.root), st0.pc,
                                       z3.Implies(z3.And(*(rng + r2 + [a != j, c1])), k1 != kk)))

    def reads(self, F, x0, atom):
        out = {}
        st = [F]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_SELECT) and mentions(x.arg(0), {x0.get_id()}):
                out[x.arg(1).get_id()] = x.arg(1)
            if z3.is_quantifier(x):
                continue
            st.extend(x.children())
        return list(out.values())

    # ------------------------------------------------------------------ statements
    def for_range(self, n, st):
        X = self.X
        ks = X.kids(n)
        # [init], range decl, begin decl, end decl, cond, inc, loopvar decl, body
        decls = [k for k in ks if k["kind"] == "DeclStmt"]
        body = ks[-1]
        var = decls[-1]
        rng = next(d for d in decls if X.kids(d)[0].get("name", "").startswith("__range"))
        pre = decls[0] if decls[0] is not rng else None
        outs = [Out(st, "next")]
        for d in ([pre] if pre else []) + [rng]:
            r = []
            for o in outs:
                r += X.stmt(d, o.st) if o.k == "next" else [o]
            outs = r
        rv = X.kids(rng)[0]
        beg = next(d for d in decls if X.kids(d)[0].get("name", "").startswith("__begin"))
        res = []
        for o in outs:
            if o.k != "next":
                res.append(o)
                continue
            p = o.st.env[rv["id"]]
            v = X.read(o.st, p)
            if isinstance(v, Path):
                p, v = v, X.read(o.st, v)
            if isinstance(v, St) and "$span" in v.f:
                v = v.f["$span"]
            res += self.over(o.st, p, v, lambda s, it: self.bodyvar(s, it, X.kids(beg)[0], var, body))
        return res

    def bodyvar(self, s, it, beg, var, body):
        X = self.X
        s, p = X.alloc(s, it, "__begin")
        s = s.bind(beg["id"], p)
        r = []
        for o in X.stmt(var, s):
            r += X.stmt(body, o.st) if o.k == "next" else [o]
        return r

    def over(self, st, p, v, f):
        """iterate over a container value: f(state, iterator) -> Outs"""
        if isinstance(v, MapV):
            en = MapEnum(self, v)
            N = en.n

            def step(s, j):
                return f(s, ItV("map", p, j, simp(en.key(j)), z3.BoolVal(False), en))
        elif isinstance(v, SeqV):
            N = v.n

            def step(s, j):
                return f(s, ItV("seq", p, j))
        elif isinstance(v, SpanV):
            N = v.n

            def step(s, j):
                return f(s, ItV("span", v.base, simp(v.off + j)))
        else:
            raise Unsupported("range-for over %r" % (type(v).__name__,))
        N = simp(N)
        if z3.is_int_value(N) and N.as_long() <= 16:
            return self.unroll(st, step, N.as_long())
        return self.run(st, step, N)

    def unroll(self, st, step, n):
        cur, done = [st], []
        for i in range(n):
            nx = []
            for s in cur:
                for o in step(s, iv(i)):
                    if o.k in ("next", "cont"):
                        nx.append(o.st)
                    elif o.k in ("brk", "done"):
                        done.append(Out(o.st, "next"))
                    else:
                        done.append(o)
            cur = nx
        outs = done + [Out(s, "next") for s in cur]
        return self.restore(outs, st)

    def for_stmt(self, n, st):
        X = self.X
        ks = n.get("inner", [])
        # clang prints: init, condvar, cond, inc, body  (empty ones as {})
        init, cvar, cond, inc, body = (ks + [{}] * 5)[:5]
        outs = [Out(st, "next")]
        if init.get("kind"):
            outs = X.stmt(init, st)
        if cvar.get("kind"):
            raise Unsupported("for with condition variable")
        res = []
        for o in outs:
            if o.k != "next":
                res.append(o)
            else:
                res += self.general(o.st, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, st)
        return res

    def while_stmt(self, n, st):
        ks = self.X.kids(n)
        if n.get("hasVar"):
            raise Unsupported("while with declaration")
        return self.general(st, ks[0], None, ks[1], st)

    def do_stmt(self, n, st):
        ks = self.X.kids(n)
        res = []
        for o in self.X.stmt(ks[0], st):
            if o.k in ("next", "cont"):
                res += self.general(o.st, ks[1], None, ks[0], st)
            elif o.k == "brk":
                res.append(Out(o.st, "next"))
            else:
                res.append(o)
        return res

    def general(self, st, cond, inc, body, outer):
        X = self.X

        def step(s, j):
            res = []
            env = s.env
            if cond is None:
                cs = [Out(s, "v", z3.BoolVal(True))]
            else:
                cs = X.ev(cond, s)
            for o in cs:
                if o.k != "v":
                    res.append(o)
                    continue

                def yes(s2):
                    r = []
                    for q in X.stmt(body, s2):
                        if q.k in ("next", "cont"):
                            if inc is None:
                                r.append(Out(q.st, "next"))
                            else:
                                s3 = q.st.copy()
                                s3.env = env
                                for w in X.ev(inc, s3):
                                    r.append(Out(w.st, "next") if w.k == "v" else w)
                        else:
                            r.append(q)
                    return r
                res += X.fork(o.st, X.boolv(o.v), yes, lambda s2: [Out(s2, "done")])
            return res
        # short concrete loops are simply executed
        conc = self.concrete(st, step)
        if conc is not None:
            return conc
        return self.run(st, step, None)

    def concrete(self, st, step, limit=16):
        cur, done = [st], []
        for i in range(limit):
            nx = []
            for s in cur:
                outs = step(s, iv(i))
                ks = {o.k for o in outs}
                if len(outs) > 1 and "done" in ks and ("next" in ks):
                    return None
                for o in outs:
                    if o.k in ("next", "cont"):
                        nx.append(o.st)
                    elif o.k in ("brk", "done"):
                        done.append(Out(o.st, "next"))
                    else:
                        done.append(o)
            cur = nx
            if not cur:
                return self.restore(done, st)
            if len(cur) + len(done) > 32:
                return None
        return None

    # ------------------------------------------------------------------ algorithms as loops
    def itrange(self, st, a, b):
        X = self.X
        if not isinstance(a, ItV) or not isinstance(b, ItV):
            raise Unsupported("algorithm range")
        if a.kind in ("seq", "span"):
            n = simp(b.pos - a.pos)
            return n, (lambda j: ItV(a.kind, a.cont, simp(a.pos + j)))
        if a.kind == "map" and a.enum is not None and b.end is not None and z3.is_true(b.end):
            return a.enum.n, (lambda j: ItV("map", a.cont, j, simp(a.enum.key(j)), z3.BoolVal(False), a.enum))
        raise Unsupported("algorithm range")

    def algo(self, name, st, vs, n, args):
        X = self.X
        if not isinstance(vs[0], ItV):
            raise Unsupported("ranges algorithm " + name)
        N, it = self.itrange(st, vs[0], vs[1])
        el = lambda s, j: X.std.deref(s, it(j))

        def loop(s, step):
            if z3.is_int_value(N) and N.as_long() <= 8:
                return self.unroll(s, step, N.as_long())
            return self.run(s, step, N, what="std::" + name)

        def value(outs, v):
            return [Out(o.st, "v", v(o.st) if callable(v) else v) if o.k == "next" else (Out(o.st, "v", o.v) if o.k == "ret" else o) for o in outs]
        if name == "for_each":
            f = vs[2]
            return value(loop(st, lambda s, j: self.nx(X.call_value(s, f, [el(s, j)]))), f)
        if name == "fill":
            return value(loop(st, lambda s, j: self.nx(X.std.assign(s, el(s, j), vs[2]))), None)
        if name in ("any_of", "all_of", "none_of"):
            f = vs[2]
            want = name != "all_of"

            def step(s, j):
                return then2(X.call_value(s, f, [el(s, j)]), lambda s2, c: X.fork(s2, c if want else z3.Not(c), lambda s3: [Out(s3, "ret", z3.BoolVal(name == "any_of"))], lambda s3: [Out(s3, "next")]))
            return value(loop(st, step), z3.BoolVal(name != "any_of"))
        if name in ("find_if", "find"):
            def step(s, j):
                if name == "find":
                    cs = val(s, X.deep_eq(X.read(s, el(s, j)), X.load(s, vs[2])))
                else:
                    cs = X.call_value(s, vs[2], [el(s, j)])
                return then2(cs, lambda s2, c: X.fork(s2, c, lambda s3: [Out(s3, "ret", it(j))], lambda s3: [Out(s3, "next")]))
            return value(loop(st, step), vs[1])
        if name == "count_if":
            s0, p = X.alloc(st, iv(0), "count")

            def step(s, j):
                return then2(X.call_value(s, vs[2], [el(s, j)]), lambda s2, c: [Out(X.write(s2, p, simp(X.read(s2, p) + z3.If(c, 1, 0))), "next")])
            return value(loop(s0, step), lambda s: X.read(s, p))
        # output iterator algorithms
        dst = vs[2]
        s0, dp = X.alloc(st, dst, "out")

        def emit(s, v):
            d = X.read(s, dp)
            if d.kind == "back":
                c = X.read(s, d.cont)
                return [Out(o.st, "next") for o in X.std.m_SeqV_push_back(s, d.cont, c, [v], n)]
            if d.kind == "ins":
                c = X.read(s, d.cont)
                if isinstance(c, MapV):
                    return [Out(o.st, "next") for o in X.std.m_MapV_insert(s, d.cont, c, [v], n)]
            if d.kind in ("seq", "span"):
                outs = X.std.assign(s, X.std.deref(s, d), v)
                return [Out(X.write(o.st, dp, ItV(d.kind, d.cont, simp(d.pos + 1))), "next") for o in outs]
            if d.kind == "ostream":
                return [Out(s, "next")]
            raise Unsupported("output iterator")
        if isinstance(dst, Opaque):
            emit = lambda s, v: [Out(s, "next")]
        if name == "copy":
            step = lambda s, j: emit(s, el(s, j))
        elif name == "transform":
            if len(vs) == 5:
                raise Unsupported("binary transform")
            step = lambda s, j: then2(X.call_value(s, vs[3], [el(s, j)]), emit)
        elif name == "copy_if":
            step = lambda s, j: then2(X.call_value(s, vs[3], [el(s, j)]), lambda s2, c: X.fork(s2, c, lambda s3: emit(s3, el(s3, j)), lambda s3: [Out(s3, "next")]))
        else:
            raise Unsupported("algorithm " + name)
        return value(loop(s0, step), (lambda s: X.read(s, dp)) if not isinstance(dst, Opaque) else dst)

    def nx(self, outs):
        return [Out(o.st, "next") if o.k == "v" else o for o in outs]

    def accumulate(self, st, vs, n, args):
        X = self.X
        N, it = self.itrange(st, vs[0], vs[1])
        s0, p = X.alloc(st, X.load(st, vs[2]), "acc")

        def step(s, j):
            e = X.std.deref(s, it(j))
            a = X.read(s, p)
            if len(vs) > 3:
                return then2(X.call_value(s, vs[3], [a, e]), lambda s2, r: [Out(X.write(s2, p, X.load(s2, r)), "next")])
            return [Out(X.write(s, p, simp(a + X.read(s, e))), "next")]
        return [Out(o.st, "v", X.read(o.st, p)) if o.k == "next" else o for o in self.run(s0, step, N, what="std::accumulate")]

    def sort(self, st, vs, n, args):
        X, S = self.X, self.S
        a, b = vs[0], vs[1]
        if not isinstance(a, ItV) or a.kind != "seq":
            raise Unsupported("std::sort range")
        c = X.read(st, a.cont)
        lo, hi = a.pos, b.pos
        so = c.arr.sort()
        arr = z3.Const(fresh_name("sorted"), so)
        if self.active:
            raise Unsupported("sort inside a loop")
        p, q = z3.Function(fresh_name("perm"), I, I), z3.Function(fresh_name("perminv"), I, I)
        t, u = z3.Int(fresh_name("t")), z3.Int(fresh_name("u"))
        inr = lambda x: z3.And(lo <= x, x < hi)
        S.facts.append(z3.ForAll([t], z3.Implies(inr(t), z3.And(inr(p(t)), q(p(t)) == t, z3.Select(arr, t) == z3.Select(c.arr, p(t)))), patterns=[z3.Select(arr, t)]))
        S.facts.append(z3.ForAll([t], z3.Implies(inr(t), z3.And(inr(q(t)), p(q(t)) == t, z3.Select(arr, q(t)) == z3.Select(c.arr, t))), patterns=[z3.Select(c.arr, t)]))
        S.facts.append(z3.ForAll([t], z3.Implies(z3.Not(inr(t)), z3.Select(arr, t) == z3.Select(c.arr, t)), patterns=[z3.Select(arr, t)]))
        x, y = S.unpack(z3.Select(arr, t), c.ety), S.unpack(z3.Select(arr, u), c.ety)
        if len(vs) > 2:
            s, px = X.alloc(st, y, "sx")
            s, py = X.alloc(s, x, "sy")
            outs = X.call_value(s, vs[2], [px, py])
            if any(o.k != "v" for o in outs):
                raise Unsupported("comparator throws")
            lt = outs[-1].v
            for o in reversed(outs[:-1]):
                lt = z3.If(z3.And(*o.st.pc[len(st.pc):]), o.v, lt)
        else:
            lt = X.std.less(y, x)
        S.facts.append(z3.ForAll([t, u], z3.Implies(z3.And(lo <= t, t < u, u < hi), z3.Not(lt)), patterns=[z3.MultiPattern(z3.Select(arr, t), z3.Select(arr, u))]))
        return val(X.write(st, a.cont, SeqV(c.ety, c.n, arr)), None)

    def map_from_seq(self, st, m0, seq):
        """insert the pairs of a sequence in order (first of a repeated key wins)"""
        X = self.X
        s0, p = X.alloc(st, m0, "map")
        s0, q = X.alloc(s0, seq, "pairs")

        def step(s, j):
            e = X.read(s, q + ("i", j))
            m = X.read(s, p)
            return self.nx(X.std.m_MapV_insert(s, p, m, [e], None))
        return [Out(o.st, "v", X.read(o.st, p)) if o.k == "next" else o for o in self.run(s0, step, seq.n, what="map construction")]

    def map_merge(self, st, p, m, c):
        """m.insert(c.begin(), c.end()): existing keys keep their value"""
        k = z3.Const(fresh_name("k"), m.dom.sort().domain())
        dom = z3.Lambda([k], z3.Or(z3.Select(m.dom, k), z3.Select(c.dom, k)))
        v = z3.Lambda([k], z3.If(z3.Select(m.dom, k), z3.Select(m.val, k), z3.Select(c.val, k)))
        return val(self.X.write(st, p, MapV(m.kty, m.vty, dom, v, m.kind)), None)


def then2(outs, f):
    """f maps a value out to statement outs"""
    r = []
    for o in outs:
        if o.k == "v":
            r.extend(f(o.st, o.v))
        else:
            r.append(o)
    return r


def next_ctr():
    from . import sym
    return next(sym._ctr)
