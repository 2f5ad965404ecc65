"""C21: an expression is exactly its terms with their coefficients."""
from .common import *
from .fields import *
from cxv.units import DSL, FV_IMPL, FV_WRAP

UNIT = DSL
COEFF = "NeoFOAM::dsl::Coeff"


# ------------------------------------------------------------------ coefficients
class Cf:
    """a coefficient made by the library: its number and, if it has one, its field"""

    def __init__(self, path, a, fl, v):
        self.path, self.a, self.fl, self.v = path, a, fl, v

    def at(self, i):
        return self.a * self.fl.arr[i] if self.fl is not None else self.a


def mkcoeff(c, st, kind, name, k=0):
    if kind == "default":
        o = c.new(st, COEFF, [], [])[0]
        a, fl = z3.RealVal(1), None
    elif kind == "number":
        a, fl = z3.Real(name + "_a"), None
        o = c.new(st, COEFF, ["double"], [a])[0]
    else:
        st, fl = mkfield(c, st, "double", name + "_f", k)
        a = z3.RealVal(1)
        if kind == "field":
            o = c.new(st, COEFF, ["const NeoFOAM::Field<double> &"], [fl.path])[0]
        else:
            a = z3.Real(name + "_a")
            o = c.new(st, COEFF, ["double", "const NeoFOAM::Field<double> &"], [a, fl.path])[0]
    if o.k != "v":
        raise Unsupported("constructing a coefficient does not simply return")
    v = c.X.load(o.st, o.v)
    st, p = c.put(o.st, v, name)
    return st, Cf(p, a, fl, v)


def observe(c, s, path, i, n):
    """what the coefficient's observers say: [(state, has field, value at i)]"""
    r = []
    for o in c.call(s, c.fn(COEFF + "::operator[]"), path, [i]):
        for h in c.call(o.st, c.fn(COEFF + "::hasSpan"), path, []):
            r.append((h.st, o.k == "v" and h.k == "v", c.X.load(h.st, h.v) if h.k == "v" else None, c.X.load(h.st, o.v) if o.k == "v" else None))
    return r


def is_coeff(c, s, path, has, val, n):
    """goals: the observers of the coefficient at path return has and, at every index (below n with a field), val(i)"""
    i = z3.Int(fresh_name("i"))
    s = s.assume(z3.And(i >= 0, i < (n if n is not None else BIG)))
    g = []
    for t, ok, h, w in observe(c, s, path, i, n):
        lit = z3.And(*[x for x in t.pc if not any(x.eq(y) for y in s.pc)]) if len(t.pc) > len(s.pc) else z3.BoolVal(True)
        dom = z3.And(i >= 0, i < (n if n is not None else BIG), lit)
        g.append(("says whether it has a field", z3.Implies(dom, h == has) if ok else z3.Implies(dom, z3.BoolVal(False))))
        g.append(("its value is the number times the field's element", z3.Implies(dom, w == val(i)) if ok else z3.Implies(dom, z3.BoolVal(False))))
    return g


def coeff_new(kind):
    def f(c):
        st, k = mkcoeff(c, c.state(), kind, "k")
        c.expect("Coeff (%s)" % kind, [Out(st, "v", k.path)], lambda s, r: is_coeff(c, s, k.path, z3.BoolVal(k.fl is not None), k.at, k.fl.n if k.fl is not None else None)
                 + ([("the field is unchanged", unchanged(c, s, k.fl))] if k.fl is not None else []), cover=("v",))
    return f


def coeff_view(c):
    st, k = mkcoeff(c, c.state(), "both", "k")
    outs = c.call(st, c.fn(COEFF + "::view"), k.path, [])

    def ret(s, r):
        r = c.X.load(s, r)
        sp = r if isinstance(r, SpanV) else r.f["$span"]
        return [("is the field's elements", z3.And(sp.n == k.fl.n, z3.BoolVal(isinstance(sp.base, Path) and sp.base.root == k.fl.root), sp.off == 0))]
    c.expect("Coeff::view", outs, ret, cover=("v",))


def coeff_scale(kind):
    def f(c):
        st, k = mkcoeff(c, c.state(), kind, "k")
        st, p, r = num(c, st, "double", "r")
        outs = c.call(st, c.fn(COEFF + "::operator*=", which=lambda d: str(c.u.ty(c.u.params(d)[0])) == "double"), k.path, [r])
        c.expect("Coeff (%s) *= number" % kind, outs, lambda s, v: is_coeff(c, s, k.path, z3.BoolVal(k.fl is not None), lambda i: k.at(i) * r, k.fl.n if k.fl is not None else None)
                 + [("returns the coefficient", z3.BoolVal(isinstance(v, Path) and v.same(k.path)))], cover=("v",))
    return f


def coeff_mul(ka, kb, member):
    def f(c):
        st, a = mkcoeff(c, c.state(), ka, "a")
        if kb == "self":
            b = a
        else:
            st, b = mkcoeff(c, st, kb, "b")
        both = a.fl is not None and b.fl is not None
        if member:
            outs = c.call(st, c.fn(COEFF + "::operator*=", which=lambda d: "Coeff" in str(c.u.ty(c.u.params(d)[0]))), a.path, [b.path])
        else:
            outs = c.call(st, c.fn("NeoFOAM::dsl::operator*", which=lambda d: all("Coeff" in str(c.u.ty(p)) for p in c.u.params(d))), None, [a.path, b.path])
        n = a.fl.n if a.fl is not None else b.fl.n if b.fl is not None else None

        def ret(s, v):
            if both:
                return [("two fields are not multiplied", z3.BoolVal(False))]
            g = []
            if member:
                at = a.path
                g.append(("returns the coefficient", z3.BoolVal(isinstance(v, Path) and v.same(a.path))))
            else:
                s, at = c.put(s, c.X.load(s, v), "product")
                g += is_coeff(c, s, a.path, z3.BoolVal(a.fl is not None), a.at, a.fl.n if a.fl is not None else None)
            if kb != "self":
                g += is_coeff(c, s, b.path, z3.BoolVal(b.fl is not None), b.at, b.fl.n if b.fl is not None else None)
            av = lambda i: a.at(i) * b.at(i)
            return g + is_coeff(c, s, at, z3.BoolVal(n is not None), av, n)
        c.expect("Coeff (%s) %s Coeff (%s)" % (ka, "*=" if member else "*", kb), outs, ret, exit=(lambda s: [("only a product of two fields is refused", z3.BoolVal(both))]), cover=("exit",) if both else ("v",))
    return f


def coeff_field(kind, k):
    def f(c):
        st, a = mkcoeff(c, c.state(), kind, "a", k)
        st, g = mkfield(c, st, "double", "g", k)
        outs = c.call(st, c.fn("NeoFOAM::dsl::detail::toField"), None, [a.path, g.path])

        def ret(s, v):
            n, arr, sz, ex = data(c, s, g)
            m = a.fl.n if a.fl is not None else iv(1)
            t = z3.Int(fresh_name("t"))
            r = [("has one element per element of the field", z3.And(n == m, sz == m))]
            r.append(("every element is the coefficient's value", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < m), arr[t] == a.at(t))) if arr is not None else m == 0))
            if a.fl is not None:
                r.append(("the coefficient's field is unchanged", unchanged(c, s, a.fl)))
            return r
        c.expect("toField (%s) %s" % (kind, EXECS[k]), outs, ret, cover=("v",))
    return f


KINDS = ["default", "number", "field", "both"]
CONTRACTS = [("Coeff (%s)" % k, coeff_new(k)) for k in KINDS] + [("Coeff::view", coeff_view)]
CONTRACTS += [("Coeff (%s) *= number" % k, coeff_scale(k)) for k in KINDS[1:]]
for m in (True, False):
    CONTRACTS += [("Coeff (%s) %s Coeff (%s)" % (a, "*=" if m else "*", b), coeff_mul(a, b, m)) for a in KINDS[1:] for b in KINDS[1:]]
CONTRACTS += [("Coeff (number) *= itself", coeff_mul("number", "self", True))]
CONTRACTS += [("toField (%s) %s" % (a, EXECS[k]), coeff_field(a, k)) for a in KINDS[1:] for k in range(3)]


# ------------------------------------------------------------------ operators and expressions over an opaque kind of term
ELEMS = ["double", "NeoFOAM::Vector"]
D = "NeoFOAM::dsl::"
TERM = {"Spatial": "NeoFOAM::cxv::SpTerm<%s>", "Temporal": "NeoFOAM::cxv::TmTerm<%s>"}


def mk(c, ety, xs):
    """element term from its numeric components"""
    xs = list(xs)

    def go(t):
        k = c.S.kind(t)
        if k == "struct":
            return eta(c.S.sort(t), [go(ft) for n, ft in c.S.fields(t)])
        if k == "seq" and c.S.fixlen(t):
            return eta(c.S.sort(t), [go(c.S.elem(t)) for _ in range(c.S.fixlen(t))])
        return xs.pop(0)
    return go(ety)


class World:
    """what the one opaque kind of term contributes (assumed contracts of its two operations); everything else of an operator,
    its type-erased model and an expression is executed"""

    def __init__(self, c, ety):
        self.c, self.ety, self.el = c, ety, c.T(ety)
        c.S.inj_axiom = True
        self.ts = {k: c.T(TERM[k] % ety) for k in TERM}
        self.op = {k: c.T(D + "%sOperator<%s>" % (k, ety)) for k in TERM}
        for k in TERM:
            for how in ("explicit", "implicit"):
                self.contract(k, how)

    def contrib(self, kind, how, term, t, extra):
        """the components a term adds at t"""
        v = self.c.S.ufun("%s_%s_%s" % (how, kind, self.ety), [term] + list(extra) + [t], self.c.S.sort(self.el))
        return comps(self.c, self.el, v)

    def target(self, X, st, a, how):
        """block a contribution goes to: the elements of the field given, or the ghost of the system given"""
        if how == "implicit":
            r = "sys!" + repr(a)
            if r not in st.store:
                raise Unsupported("implicit operation on another system")
            return Path(r)
        fv = X.load(st, a)
        q = fv.f[slots(self.c, fv.cls)[0]]
        return Path(q.root, q.steps[:-1])

    def contract(self, kind, how):
        c = self.c

        def g(X, d, st, this, args):
            term = X.S.pack(X.load(st, this), self.ts[kind])
            extra = [X.load(st, a) for a in args[1:]]
            t = z3.Int(fresh_name("t"))
            at = self.target(X, st, args[0], how)
            b = X.read(st, at)
            new = mk(c, self.el, [x + y for x, y in zip(comps(c, self.el, z3.Select(b.arr, t)), self.contrib(kind, how, term, t, extra))])
            return [Out(X.write(st, at, SeqV(b.ety, b.n, z3.Lambda([t], new))), "v", None)]
        c.X.contracts["NeoFOAM::cxv::%s::%sOperation" % (TERM[kind].split("::")[-1].split("<")[0], how)] = g

    def ctor(self, kind):
        """SpatialOperator(T) / TemporalOperator(T) for the opaque term"""
        cls = self.c.u.find_class(self.op[kind])
        r = [m for m in self.c.X.ctors(cls) if [str(self.c.u.ty(p)) for p in self.c.u.params(m)] == [str(self.ts[kind])] and self.c.u.definition(m) is not None]
        if not r:
            raise Unsupported("no constructor of %s from a term" % self.op[kind])
        return r[0]

    def mkop(self, st, kind, name):
        """an operator made from an arbitrary term: state, path, the term's value"""
        c = self.c
        tv = c.S.fresh(self.ts[kind], name)
        st, tp = c.put(st, tv, name)
        o = c.X.construct(st, self.op[kind], self.ctor(kind)["type"]["qualType"], [tp])
        o = [x for x in o if x.k == "v"]
        if len(o) != 1:
            raise Unsupported("constructing an operator does not simply return")
        st, p = c.put(o[0].st, c.X.load(o[0].st, o[0].v), name + "_op")
        return st, p, tv

    def model(self, kind, st):
        """tag of the type-erased model, learnt by constructing one"""
        s, p, tv = self.mkop(st, kind, "probe" + kind)
        a = self.any(s, p)
        t = simp(AnyS.tag(a))
        if not z3.is_int_value(t):
            raise Unsupported("dynamic type of the model")
        return t, self.c.S.tag_ty(t.as_long())

    def any(self, s, p):
        v = self.c.X.load(s, p)
        xs = [x for x in v.f.values() if isinstance(x, z3.ExprRef) and x.sort().eq(AnyS)]
        if len(xs) != 1:
            raise Unsupported("representation of an operator")
        return xs[0]


    # -------------------------------------------------------------- terms
    def term(self, kind, a):
        """the packed term inside a type-erased value"""
        m = self.mty[kind]
        v = self.c.S.from_any(a, m)
        xs = [x for x in v.f.values() if isinstance(x, St) and str(x.cls) == str(self.ts[kind])]
        if len(xs) != 1:
            raise Unsupported("representation of an operator's model")
        return simp(self.c.S.pack(xs[0], self.ts[kind]))

    def learn(self, st):
        self.tag, self.mty = {}, {}
        for k in TERM:
            self.tag[k], self.mty[k] = self.model(k, st)
        self.c.X.own_types = tuple(self.mty.values())
        return self

    def coeff_of(self, kind, term):
        v = self.c.S.unpack(term, self.ts[kind])
        xs = [n for n, x in v.f.items() if isinstance(x, St) and str(x.cls) == COEFF]
        if len(xs) != 1:
            raise Unsupported("representation of a term's coefficient")
        return v, xs[0]

    def scaled(self, kind, term, by):
        """[(condition, term with its coefficient multiplied by the library's own *=, or None where that refuses)]"""
        c = self.c
        v, n = self.coeff_of(kind, term)
        st, p = c.put(c.state(), v.f[n], "scaledcoeff")
        co = isinstance(by, (St, Path))
        want = (lambda d: (COEFF in str(c.u.ty(c.u.params(d)[0]))) == co)
        if isinstance(by, St):
            st, by = c.put(st, by, "by")
        r = []
        for o in c.call(st, c.fn(COEFF + "::operator*=", which=want), p, [by]):
            q = z3.And(*o.st.pc) if o.st.pc else z3.BoolVal(True)
            r.append((q, simp(c.S.pack(v.with_(n, c.X.load(o.st, p)), self.ts[kind])) if o.k == "v" else None))
        return r

    def is_scaled(self, kind, new, old, by):
        return z3.And(*[z3.Implies(q, new == e) if e is not None else z3.Not(q) for q, e in self.scaled(kind, old, by)])

    # -------------------------------------------------------------- expressions
    def expr(self, st, name):
        """an arbitrary expression whose operators hold terms of the opaque kind"""
        c = self.c
        st, p, v = c.obj(st, D + "Expression<%s>" % self.ety, name)
        for k in TERM:
            q = self.terms_v(v, k)
            t = z3.Int(fresh_name("t"))
            st = st.assume(q.n <= BIG)
            a = self.elem_any(k, z3.Select(q.arr, t))
            st = st.assume(z3.ForAll([t], AnyS.tag(a) == self.tag[k], patterns=[z3.Select(q.arr, t)]))
        return st, Ex(self, p, v)

    def terms_v(self, v, kind):
        xs = [x for x in v.f.values() if isinstance(x, SeqV) and str(x.ety) == str(self.op[kind])]
        if len(xs) != 1:
            raise Unsupported("representation of an expression")
        return xs[0]

    def elem_any(self, kind, e):
        v = self.c.S.unpack(e, self.op[kind])
        return [x for x in v.f.values() if isinstance(x, z3.ExprRef) and x.sort().eq(AnyS)][0]

    def exec_of(self, v):
        xs = [x for x in v.f.values() if isinstance(x, VarV)]
        if len(xs) != 1:
            raise Unsupported("representation of an expression")
        return xs[0].idx

    def has(self, v, kind, n, at):
        """goals: the expression value has n terms of the kind and term t satisfies at(t, term)"""
        q = self.terms_v(v, kind)
        t = z3.Int(fresh_name("t"))
        a = self.elem_any(kind, z3.Select(q.arr, t))
        low = kind.lower()
        return [("has exactly the %s terms" % low, q.n == n),
                ("every %s term is held" % low, z3.Implies(z3.And(0 <= t, t < n), AnyS.tag(a) == self.tag[kind])),
                ("every %s term and its coefficient" % low, z3.Implies(z3.And(0 <= t, t < n), at(t, self.term(kind, a))))]

    def same_expr(self, s, e, what):
        v = self.c.X.load(s, e.path)
        g = []
        for k in TERM:
            q = self.terms_v(v, k)
            t = z3.Int(fresh_name("t"))
            g += [("%s unchanged (%s)" % (what, k.lower()), z3.And(q.n == e.n[k], z3.Implies(z3.And(0 <= t, t < q.n), z3.Select(q.arr, t) == z3.Select(e.q[k].arr, t))))]
        return g + [("%s: executor unchanged" % what, self.exec_of(v) == e.exec)]

    def type_of(self, kind, term):
        """the term's type (its one member of the enumeration)"""
        v = self.c.S.unpack(term, self.ts[kind])
        xs = [v.f[n] for n, t in self.c.S.fields(self.ts[kind]) if str(t).endswith("Operator::Type")]
        if len(xs) != 1:
            raise Unsupported("representation of a term's type")
        return xs[0]

    def is_type(self, kind, term, which):
        names = [x.get("name") for x in self.c.u.enums["NeoFOAM::dsl::Operator::Type"].get("inner", []) if x.get("kind") == "EnumConstantDecl"]
        return self.type_of(kind, term) == iv(names.index(which))


class Ex:
    def __init__(self, w, path, v):
        self.w, self.path, self.v = w, path, v
        self.q = {k: w.terms_v(v, k) for k in TERM}
        self.n = {k: self.q[k].n for k in TERM}
        self.exec = w.exec_of(v)

    def term(self, kind, t):
        return self.w.term(kind, self.w.elem_any(kind, z3.Select(self.q[kind].arr, t)))


def opfn(c, w, kind, name, const=None, which=None):
    return c.fn(D + "%sOperator::%s" % (kind, name), cls=c.u.find_class(w.op[kind]), const=const, which=which)


def op_basic(ety, kind):
    def f(c):
        w = World(c, ety).learn(c.state())
        st, p, tv = w.mkop(c.state(), kind, "term")
        term = simp(c.S.pack(tv, w.ts[kind]))
        v, cn = w.coeff_of(kind, term)
        nm = "%sOperator<%s>" % (kind, ety)
        c.expect(nm + " from a term", [Out(st, "v", p)], lambda s, r: [("holds the term", z3.And(AnyS.tag(w.any(s, p)) == w.tag[kind], w.term(kind, w.any(s, p)) == term))], cover=("v",))
        keep = lambda s: [("the operator is unchanged", w.term(kind, w.any(s, p)) == term)]
        c.expect(nm + "::getType", c.call(st, opfn(c, w, kind, "getType"), p, []), lambda s, r: [("the term's type", c.X.load(s, r) == w.type_of(kind, term))] + keep(s), cover=("v",))
        c.expect(nm + "::getCoefficient", c.call(st, opfn(c, w, kind, "getCoefficient", const=True), p, []), lambda s, r: [("the term's coefficient", c.S.pack(c.X.load(s, r), c.T(COEFF)) == c.S.pack(v.f[cn], c.T(COEFF)))] + keep(s), cover=("v",))
        c.expect(nm + "::exec", c.call(st, opfn(c, w, kind, "exec"), p, []), lambda s, r: [("the term's executor", c.X.load(s, r).idx == [x for x in v.f.values() if isinstance(x, VarV)][0].idx)] + keep(s), cover=("v",))
        # copies are values
        o = c.new(st, w.op[kind], ["const %s &" % w.op[kind]], [p])
        c.expect(nm + ": copy", o, lambda s, r: [("holds the same term", w.term(kind, anyof(c, s, r)) == term)] + keep(s), cover=("v",))
        st2, p2, tv2 = w.mkop(st, kind, "other")
        if c.u.find_functions(D + "%sOperator::operator=" % kind, None, c.u.find_class(w.op[kind]), None, None):
            c.expect(nm + ": assignment", c.call(st2, opfn(c, w, kind, "operator=", which=lambda d: "&&" not in d["type"]["qualType"]), p2, [p]), lambda s, r: [("holds the same term", w.term(kind, w.any(s, p2)) == term), ("is the target", z3.BoolVal(isinstance(r, Path) and r.same(p2)))] + keep(s), cover=("v",))
        # evaluation: exactly the term's contribution
        ext = [z3.Real("t"), z3.Real("dt")] if kind == "Temporal" else []
        s3, fl = mkfield(c, st, ety, "src", 0)
        c.expect(nm + "::explicitOperation", c.call(s3, opfn(c, w, kind, "explicitOperation"), p, [fl.path] + ext), lambda s, r: [("adds exactly the term's contribution", adds(c, w, s, fl, lambda t: w.contrib(kind, "explicit", term, t, ext)))] + keep(s), cover=("v",))
        s4, ls, arr = system(c, w, st)
        c.expect(nm + "::implicitOperation", c.call(s4, opfn(c, w, kind, "implicitOperation"), p, [ls] + ext), lambda s, r: [("adds exactly the term's contribution", sysadds(c, w, s, ls, arr, lambda t: w.contrib(kind, "implicit", term, t, ext)))] + keep(s), cover=("v",))
    return f


def anyof(c, s, r):
    v = c.X.load(s, r)
    return [x for x in v.f.values() if isinstance(x, z3.ExprRef) and x.sort().eq(AnyS)][0]


def adds(c, w, s, fl, d):
    n, arr, sz, ex = data(c, s, fl)
    if arr is None:
        return z3.BoolVal(False)
    t = z3.Int(fresh_name("t"))
    return z3.And(n == fl.n, z3.Implies(z3.And(0 <= t, t < n), z3.And(*[x == y + z for x, y, z in zip(comps(c, w.el, arr[t]), comps(c, w.el, fl.arr[t]), d(t))])))


def system(c, w, st):
    """a linear system, with a ghost for everything its terms add to it (matrix and right-hand side entries numbered by t)"""
    ls = Path("ls")
    st = st.copy()
    st.store["ls"] = Opaque("linear system")
    arr = z3.Const("ls_ghost", z3.ArraySort(I, c.S.sort(w.el)))
    st.store["sys!" + repr(ls)] = SeqV(w.el, iv(2 ** 40), arr)
    return st, ls, arr


def sysadds(c, w, s, ls, arr, d):
    b = s.store["sys!" + repr(ls)]
    t = z3.Int(fresh_name("t"))
    return z3.And(*[x == y + z for x, y, z in zip(comps(c, w.el, b.arr[t]), comps(c, w.el, arr[t]), d(t))])


def freeop(c, sym, want):
    """the operator function template instantiated for these parameter types"""
    return c.fn(D + "operator" + sym, which=lambda d: [str(c.u.ty(p).strip()) for p in c.u.params(d)] == [str(x.strip()) for x in want])


def op_scale(ety, kind, by):
    def f(c):
        w = World(c, ety).learn(c.state())
        st, p, tv = w.mkop(c.state(), kind, "term")
        term = simp(c.S.pack(tv, w.ts[kind]))
        nm = "%sOperator<%s>" % (kind, ety)
        if by == "number":
            a = z3.Real("scale")
            d, arg, lhs = freeop(c, "*", [c.T("double"), w.op[kind]]), a, a
        elif by == "coefficient":
            lhs = c.S.fresh(c.T(COEFF), "by")
            st, arg = c.put(st, lhs, "byc")
            d = freeop(c, "*", [c.T(COEFF), w.op[kind]])
        else:
            st, fl = mkfield(c, st, "double", "byfield", 0)
            o = c.new(st, COEFF, ["const NeoFOAM::Field<double> &"], [fl.path])[0]
            lhs = c.X.load(o.st, o.v)
            arg = fl.path
            d = freeop(c, "*", [c.T("NeoFOAM::Field<double>"), w.op[kind]])
        outs = c.call(st, d, None, [arg, p])
        ref = lambda s: z3.Or(*[q for q, e in w.scaled(kind, term, lhs) if e is None] + [z3.BoolVal(False)])
        c.expect("%s * %s" % (by, nm), outs, lambda s, r: [("is the term with its coefficient multiplied", z3.And(AnyS.tag(anyof(c, s, r)) == w.tag[kind], w.is_scaled(kind, w.term(kind, anyof(c, s, r)), term, lhs))),
                                                         ("the operator is unchanged", w.term(kind, w.any(s, p)) == term)],
                 exit=lambda s: [("only where the coefficients cannot be multiplied", ref(s))], cover=("v",))
    return f


# ------------------------------------------------------------------ expressions
def exfn(c, w, name, params=None, which=None, const=None):
    return c.fn(D + "Expression::" + name, cls=c.u.find_class(c.T(D + "Expression<%s>" % w.ety)), which=which, const=const)


def takes(c, *pre):
    return lambda d: [str(c.u.ty(p).strip()) for p in c.u.params(d)] == [str(c.T(x).strip()) for x in pre]


def ex_new(ety):
    def f(c):
        w = World(c, ety).learn(c.state())
        E = D + "Expression<%s>" % ety
        st = c.state()
        xv = executor(c, None)
        st, xp = c.put(st, xv, "ex")
        outs = c.new(st, E, ["const NeoFOAM::Executor &"], [xp])
        c.expect("Expression<%s>(executor)" % ety, outs, lambda s, r: [("keeps the executor", w.exec_of(c.X.load(s, r)) == xv.idx)] + [("has no %s term" % k.lower(), w.terms_v(c.X.load(s, r), k).n == 0) for k in TERM], cover=("v",))
        st, e = w.expr(st, "e")
        outs = c.new(st, E, ["const %s &" % E], [e.path])
        def ret(s, r):
            v = c.X.load(s, r)
            g = [("keeps the executor", w.exec_of(v) == e.exec)]
            for k in TERM:
                g += w.has(v, k, e.n[k], lambda t, x, k=k: x == e.term(k, t))
            return g + w.same_expr(s, e, "the original")
        c.expect("Expression<%s>: copy" % ety, outs, ret, cover=("v",))
        outs = c.call(st, exfn(c, w, "size"), e.path, [])
        c.expect("Expression<%s>::size" % ety, outs, lambda s, r: [("counts the terms", c.X.load(s, r) == e.n["Spatial"] + e.n["Temporal"])] + w.same_expr(s, e, "the expression"), cover=("v",))
        outs = c.call(st, exfn(c, w, "exec"), e.path, [])
        c.expect("Expression<%s>::exec" % ety, outs, lambda s, r: [("is its executor", c.X.load(s, r).idx == e.exec)] + w.same_expr(s, e, "the expression"), cover=("v",))
        for k in TERM:
            for const in (True, False):
                outs = c.call(st, exfn(c, w, k.lower() + "Operators", const=const), e.path, [])
                c.expect("Expression<%s>::%sOperators%s" % (ety, k.lower(), " const" if const else ""), outs, lambda s, r: [("are its terms", z3.BoolVal(isinstance(r, Path) and r.root == e.path.root and str(c.S.kind(c.T("int"))) != "" and c.X.load(s, r).arr.eq(e.q[k].arr)))] + w.same_expr(s, e, "the expression"), cover=("v",))
        for k in TERM:
            s2, p, tv = w.mkop(st, k, "term")
            term = simp(c.S.pack(tv, w.ts[k]))
            outs = c.call(s2, exfn(c, w, "addOperator", which=takes(c, str(w.op[k]))), e.path, [p])
            def ret(s, r):
                v = c.X.load(s, e.path)
                g = [("executor kept", w.exec_of(v) == e.exec), ("the operator is unchanged", w.term(k, w.any(s, p)) == term)]
                for q in TERM:
                    g += w.has(v, q, e.n[q] + (1 if q == k else 0), lambda t, x, q=q: x == (z3.If(t == e.n[q], term, e.term(q, t)) if q == k else e.term(q, t)))
                return g
            c.expect("Expression<%s>::addOperator (%s)" % (ety, k.lower()), outs, ret, cover=("v",))
    return f


def ex_join(ety, how):
    """addExpression, + and - of two expressions; how ends with ' self' when both are the same object"""
    def f(c):
        w = World(c, ety).learn(c.state())
        E = D + "Expression<%s>" % ety
        st, a = w.expr(c.state(), "a")
        same = how.endswith(" self")
        op = how.split(" ")[0]
        b = a
        if not same:
            st, b = w.expr(st, "b")
        for k in TERM:
            st = st.assume(a.n[k] + b.n[k] <= BIG)
        if op == "add":
            outs = c.call(st, exfn(c, w, "addExpression"), a.path, [b.path])
        else:
            outs = c.call(st, freeop(c, op, [c.T(E), c.T(E)]), None, [a.path, b.path])

        def ret(s, r):
            v = c.X.load(s, a.path if op == "add" else r)
            g = [("executor of the left operand", w.exec_of(v) == a.exec)]
            for k in TERM:
                def at(t, x, k=k):
                    y = b.term(k, t - a.n[k])
                    return z3.If(t < a.n[k], x == a.term(k, t), w.is_scaled(k, x, y, z3.RealVal(-1)) if op == "-" else x == y)
                g += w.has(v, k, a.n[k] + b.n[k], at)
            if not same:
                g += w.same_expr(s, b, "the right operand")
            if op != "add":
                g += w.same_expr(s, a, "the left operand")
            return g
        c.expect("Expression<%s> %s" % (ety, how), outs, ret, cover=("v",))
    return f


def ex_scale(ety):
    def f(c):
        w = World(c, ety).learn(c.state())
        E = D + "Expression<%s>" % ety
        st, a = w.expr(c.state(), "a")
        sc = z3.Real("scale")
        outs = c.call(st, freeop(c, "*", [c.T("double"), c.T(E)]), None, [sc, a.path])

        def ret(s, r):
            v = c.X.load(s, r)
            g = [("executor of the expression", w.exec_of(v) == a.exec)]
            for k in TERM:
                g += w.has(v, k, a.n[k], lambda t, x, k=k: w.is_scaled(k, x, a.term(k, t), sc))
            return g + w.same_expr(s, a, "the expression")
        c.expect("number * Expression<%s>" % ety, outs, ret, cover=("v",))
    return f


def ex_ops(ety, op, lk, rk):
    """an expression or an operator on the left, an operator on the right"""
    def f(c):
        w = World(c, ety).learn(c.state())
        E = D + "Expression<%s>" % ety
        st = c.state()
        if lk == "Expression":
            st, a = w.expr(st, "a")
            lp, lt = a.path, c.T(E)
        else:
            st, lp, tv = w.mkop(st, lk, "lhs")
            lterm, lt = simp(c.S.pack(tv, w.ts[lk])), w.op[lk]
        st, rp, tv = w.mkop(st, rk, "rhs")
        rterm = simp(c.S.pack(tv, w.ts[rk]))
        outs = c.call(st, freeop(c, op, [lt, w.op[rk]]), None, [lp, rp])

        def ret(s, r):
            v = c.X.load(s, r)
            ex = a.exec if lk == "Expression" else [x for x in c.S.unpack(lterm, w.ts[lk]).f.values() if isinstance(x, VarV)][0].idx
            g = [("executor of the left operand", w.exec_of(v) == ex)]
            for k in TERM:
                n0 = a.n[k] if lk == "Expression" else iv(1 if lk == k else 0)
                def at(t, x, k=k, n0=n0):
                    left = a.term(k, t) if lk == "Expression" else lterm if lk == k else None
                    right = (w.is_scaled(k, x, rterm, z3.RealVal(-1)) if op == "-" else x == rterm) if rk == k else z3.BoolVal(False)
                    return z3.If(t < n0, x == left, right) if left is not None else right
                g += w.has(v, k, n0 + (1 if rk == k else 0), at)
            g.append(("the right operand is unchanged", w.term(rk, w.any(s, rp)) == rterm))
            if lk == "Expression":
                g += w.same_expr(s, a, "the left operand")
            return g
        c.expect("%s<%s> %s %sOperator" % (lk, ety, op, rk), outs, ret, cover=("v",))
    return f


def ex_eval(ety, how, kind, fresh=False):
    def f(c):
        w = World(c, ety).learn(c.state())
        st, e = w.expr(c.state(), "e")
        ext = [z3.Real("t"), z3.Real("dt")] if kind == "Temporal" else []
        low = how.lower()
        nc = len(comps(c, w.el, z3.Const("probe", c.S.sort(w.el))))
        if how == "implicit":
            st, ls, arr = system(c, w, st)
            tgt = ls
        elif not fresh:
            st, fl = mkfield(c, st, ety, "src", 0)
            tgt = fl.path
        else:
            tgt = z3.Int("nCells")
            c.S.fact(z3.And(tgt >= 0, tgt <= BIG))
            v = c.X.load(st, e.path)
            st = st.assume(w.exec_of(v) == 0)
        ps = ["size_t"] if fresh else None
        outs = c.call(st, exfn(c, w, how + "Operation", which=lambda d: len(c.u.params(d)) == 1 + len(ext) and (c.S.kind(c.u.ty(c.u.params(d)[0])) == "int") == fresh), e.path, [tgt] + ext)
        sums = [c.sumt(lambda j, t, q=q: z3.If(w.is_type(kind, e.term(kind, j), how.capitalize()), w.contrib(kind, low, e.term(kind, j), t, ext)[q], 0), R) for q in range(nc)]
        d = lambda t: [x(e.n[kind], t) for x in sums]

        def ret(s, r):
            if how == "implicit":
                return [("adds every implicit %s term's contribution once, and nothing else" % kind.lower(), sysadds(c, w, s, ls, arr, d))] + w.same_expr(s, e, "the expression")
            g = []
            rn, ra, rs, rx = val_data(c, s, c.X.load(s, r))
            t = z3.Int(fresh_name("t"))
            if fresh:
                g.append(("one element per cell", z3.And(rn == tgt, rs == tgt)))
                g.append(("is the sum of every explicit %s term's contribution" % kind.lower(), z3.Implies(z3.And(0 <= t, t < rn), z3.And(*[x == y for x, y in zip(comps(c, w.el, ra[t]), d(t))])) if ra is not None else rn == 0))
            else:
                g.append(("adds every explicit %s term's contribution once, and nothing else" % kind.lower(), adds(c, w, s, fl, d)))
                n, arr2, sz, ex = data(c, s, fl)
                g.append(("returns the accumulated field", z3.And(rn == n, z3.Implies(z3.And(0 <= t, t < n), z3.And(*[x == y for x, y in zip(comps(c, w.el, ra[t]), comps(c, w.el, arr2[t]))]))) if ra is not None and arr2 is not None else z3.And(rn == 0, n == 0)))
            return g + w.same_expr(s, e, "the expression")
        c.expect("Expression<%s>::%sOperation (%s%s)" % (ety, how, kind.lower(), ", new field" if fresh else ""), outs, ret, cover=("v",))
    return f


for e in ELEMS:
    for k in TERM:
        CONTRACTS += [("%sOperator<%s>" % (k, e), op_basic(e, k))]
        CONTRACTS += [("%s * %sOperator<%s>" % (b, k, e), op_scale(e, k, b)) for b in ("number", "coefficient", "field")]
        CONTRACTS += [("Expression<%s> %s %sOperator" % (e, o, k), ex_ops(e, o, "Expression", k)) for o in "+-" if k == "Spatial"]
        CONTRACTS += [("Expression<%s>::%sOperation (%s)" % (e, h, k), ex_eval(e, h, k)) for h in ("explicit", "implicit")]
        CONTRACTS += [("%sOperator %s %sOperator -> Expression<%s>" % (k, o, k2, e), ex_ops(e, o, k, k2)) for o in "+-" for k2 in TERM]
    CONTRACTS += [("Expression<%s>" % e, ex_new(e))] + [("Expression<%s> %s" % (e, h), ex_join(e, h)) for h in ("add", "add self", "+", "-", "+ self", "- self")]
    CONTRACTS += [("number * Expression<%s>" % e, ex_scale(e)), ("Expression<%s>::explicitOperation (new field)" % e, ex_eval(e, "explicit", "Spatial", True))]


# ------------------------------------------------------------------ the library's own terms, evaluated explicitly
from contracts import C16 as X16
from contracts import C15 as X15
CC = X16.CC


def cellwise(which, ety, k, kind):
    """source term and time derivative: every cell gets the coefficient times the term's value"""
    def f(c):
        w, M, phi, flux, P, S, st = X16.setting(c, ety, k, kind)
        w.shared[str(c.T(X16.SP))] = P.path
        co = X16.GeoV(w, st, "VolumeField", "double", "coefficients", M)
        st = co.st
        w.refs.append(("VolumeField<double>", co.path if which == "SourceTerm" else phi.path))
        w.refs.append(("VolumeField", phi.path))
        cls = CC + "%s<%s>" % (which, ety)
        e = c.T(ety)
        if which == "SourceTerm" and ety == "double":
            st, this = X16.built(c, w, st, cls, co, phi)
        else:
            st, this = w.obj(st, cls, "op")
        st, op, sc = X16.setcoeff(c, w, st, this, cls, k, kind, M.nC)
        st, src = mkfield(c, st, ety, "src", k, n=M.nC)
        same = lambda s: [("the coefficients are unchanged", co.same(s))]
        x = lambda g, t, q: comps(c, e, g.int.arr[t])[q]
        if which == "SourceTerm":
            outs = c.call(st, meth(c, cls, "explicitOperation", n=1), this, [src.path])
            add = lambda t, q: sc(t) * co.int.arr[t] * x(phi, t, q)
        else:
            old = X16.GeoV(w, st, "VolumeField", ety, "old", M)
            st = old.st
            asked = X16.oldlevel(c, phi, old)
            dt = z3.Real("dt")
            st = st.assume(dt > 0)
            outs = c.call(st, meth(c, cls, "explicitOperation", n=3), this, [src.path, z3.Real("time"), dt])
            add = lambda t, q: sc(t) * ((1 / dt) * (x(phi, t, q) - x(old, t, q)) * M.vol.arr[t])
            same = lambda s: [("the old-time field is unchanged", old.same(s)), ("the old level of this field", z3.BoolVal(asked == [True]))]

        def ret(s, _):
            g = []
            n, arr, sz, ex = data(c, s, src)
            t = z3.Int(fresh_name("t"))
            for q in range(len(comps(c, e, src.arr[t]))):
                g.append(("every cell gets the coefficient times the term, component %d" % q, z3.And(n == M.nC, z3.Implies(z3.And(0 <= t, t < M.nC), comps(c, e, arr[t])[q] == comps(c, e, src.arr[t])[q] + add(t, q)))))
            return g + [("the field is unchanged", phi.same(s)), M.same(s)] + same(s)
        c.expect("%s<%s>::explicitOperation scaled by a %s, %s" % (which, ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def scheme(cls, k):
    """divergence and Laplacian: the scheme is asked once, for the operator's own operands and coefficient; its result is added"""
    def f(c):
        w, M, phi, flux, P, S, st = X16.setting(c, "double", k, "number")
        w.refs += [("SurfaceField", flux.path), ("VolumeField", phi.path)]
        qn = CC + cls + "<double>"
        st, this = w.obj(st, qn, "op")
        st = X16.scheme_set(c, st, this)
        st, op, sc = X16.setcoeff(c, w, st, this, qn, k, "number", M.nC)
        st, src = mkfield(c, st, "double", "src", k, n=M.nC)
        kd = z3.Function("schemeresult", I, R)
        calls = []

        def impl(X, md, s, obj, args):
            fv = X.load(s, args[0])
            q = fv.f[slots(c, fv.cls)[0]]
            at = Path(q.root, q.steps[:-1])
            b = X.read(s, at)
            t = z3.Int(fresh_name("t"))
            calls.append((b, fv.f[slots(c, fv.cls)[1]], s, [X.load(s, a) if "Coeff" in p["type"]["qualType"] else a for a, p in zip(args, c.u.params(md))]))
            return [Out(X.write(s, at, SeqV(b.ety, b.n, z3.Lambda([t], kd(t)))), "v", None)]
        c.X.abstract_impl[CC + cls + "Factory::" + ("div" if cls == "DivOperator" else "laplacian")] = impl
        outs = c.call(st, meth(c, qn, "explicitOperation", n=1), this, [src.path])

        def ret(s, _):
            ok = len(calls) == 1
            b, sz0, s0, a = calls[0] if ok else (None, None, None, [])
            has = lambda p: any(isinstance(x, Path) and x.same(p) for x in a)
            n, arr, sz, ex = data(c, s, src)
            t = z3.Int(fresh_name("t"))
            return [("the scheme is asked once for the operator's own operands", z3.BoolVal(ok and has(flux.path) and has(phi.path))),
                    ("it starts from zero in every cell", z3.And(sz0 == M.nC, z3.Implies(z3.And(0 <= t, t < M.nC), b.arr[t] == 0)) if ok else z3.BoolVal(False)),
                    ("scaled by the operator's coefficient", X15.eqv(c, a[-1], op) if ok else z3.BoolVal(False)),
                    ("its result is added to the source", z3.And(n == M.nC, z3.Implies(z3.And(0 <= t, t < M.nC), arr[t] == src.arr[t] + kd(t)))),
                    ("the field is unchanged", phi.same(s)), ("the flux is unchanged", flux.same(s)), M.same(s)]
        c.expect("%s<double>::explicitOperation %s" % (cls, EXECS[k]), outs, ret, cover=("v",))
    return f


EXPLICIT = []
for k in range(3):
    for e in ELEMS:
        for kind in ("number", "field"):
            for t in ("SourceTerm", "DdtOperator"):
                EXPLICIT.append(("%s<%s>::explicitOperation %s, %s" % (t, e, kind, EXECS[k]), cellwise(t, e, k, kind)))
    for t in ("DivOperator", "LaplacianOperator"):
        EXPLICIT.append(("%s::explicitOperation %s" % (t, EXECS[k]), scheme(t, k)))


def modelof(c, kind, ety, cls):
    """the operator's nested class template for this kind of term, whatever its name"""
    pre = D + "%sOperator" % kind
    names = set(q for q in c.u.class_plain if q.startswith(pre + "::") or q.startswith(pre + "<"))
    r = []
    for q in sorted(set(x.split("::")[-1].split("<")[0] for x in names)):
        t = c.T(pre + "<%s>::%s<%s>" % (ety, q, cls))
        k = c.u.find_class(t)
        if k is not None and k["kind"] == "ClassTemplateSpecializationDecl" and str(t) not in [str(x) for x in r]:
            r.append(t)
    if len(r) != 1:
        raise Unsupported("model of %s behind %s" % (cls, pre))
    return r[0]


def wrapped(kind, which, ety, how, k):
    """the type-erased interface reaches the library's operator: its operation is performed exactly once, on the given target"""
    def f(c):
        w, M, phi, flux, P, S, st = X16.setting(c, ety, k, "number")
        w.shared[str(c.T(X16.SP))] = P.path
        co = X16.GeoV(w, st, "VolumeField", "double", "coefficients", M)
        st = co.st
        w.refs += [("SurfaceField", flux.path), ("VolumeField<double>", co.path), ("VolumeField", phi.path)]
        cls = CC + "%s<%s>" % (which, ety)
        mty = str(modelof(c, kind, ety, cls))
        st, this = w.obj(st, mty, "model")
        st, src = mkfield(c, st, ety, "src", k, n=M.nC)
        st = st.copy()
        st.store["ls"] = Opaque("linear system")
        tgt = src.path if how == "explicit" else Path("ls")
        ext = [z3.Real("t"), z3.Real("dt")] if kind == "Temporal" else []

        def hook(X, d, s, obj, args):
            s = s.copy()
            s.store["$calls"] = s.store.get("$calls", ()) + ((obj, tuple(args)),)
            return [Out(s, "v", None)]
        c.X.contracts[CC + which + "::%sOperation" % how] = hook
        outs = c.call(st, meth(c, mty, how + "Operation", n=1 + len(ext)), this, [tgt] + ext)

        def ret(s, _):
            calls = s.store.get("$calls", ())
            ok = len(calls) == 1
            obj, args = calls[0] if ok else (None, ())
            ok = ok and isinstance(obj, Path) and obj.root == this.root and len(args) == 1 + len(ext) and isinstance(args[0], Path) and args[0].same(tgt)
            return [("performs the operator's own operation exactly once on the target", z3.BoolVal(ok))] + [("passes the time and the step", c.X.load(s, a) == x) for a, x in zip(args[1:], ext)]
        c.expect("%sOperator of a %s<%s>: %sOperation" % (kind, which, ety, how), outs, ret, cover=("v",))
    return f


WRAPPED = []
for h in ("explicit", "implicit"):
    for e in ELEMS:
        WRAPPED += [("%sOperator of a %s<%s>: %sOperation" % (kd, t, e, h), wrapped(kd, t, e, h, 0)) for kd, t in (("Spatial", "SourceTerm"), ("Temporal", "DdtOperator"))]
    WRAPPED += [("SpatialOperator of a %s<double>: %sOperation" % (t, h), wrapped("Spatial", t, "double", h, 0)) for t in ("DivOperator", "LaplacianOperator")]
PARTS = [(DSL, CONTRACTS), (FV_IMPL, EXPLICIT), (FV_WRAP, WRAPPED)]
