"""C04: a collection finds, lists and returns exactly its documents."""
from .common import *
from cxv.sym import Out
from cxv.units import DB

UNIT = DB
M = "NeoFOAM::CollectionMixin"
COL = "NeoFOAM::cxv::ColT"
DOC = "NeoFOAM::Document"
OOR = "std::out_of_range"


def mixin(c):
    t = c.T("NeoFOAM::CollectionMixin<NeoFOAM::cxv::DocT>")
    cls = c.u.find_class(t)
    if cls is None:
        raise Unsupported("CollectionMixin<DocT> not instantiated")
    return t, cls


def method(c, name, cst):
    t, cls = mixin(c)
    qn = "NeoFOAM::CollectionMixin::" + name
    fs = [f for f in c.u.find_functions(qn, const=cst) if f.get("_class") is not None and f["_class"]["id"] == cls["id"]]
    if len(fs) != 1:
        raise Unsupported("%d definitions of %s" % (len(fs), qn))
    return fs[0]


def col(c):
    t, _ = mixin(c)
    st, p, v = c.obj(c.state(), t, "col")
    m = mp(c, v)
    return st, p, v, m


def docof(c, m, k):
    """the document stored under k, as a packed term"""
    e = c.S.unpack(m.val[k], m.vty)
    d = [x for x in e.f.values() if isinstance(x, St)]
    return c.S.pack(d[0], c.T(DOC)) if len(d) == 1 else None


def doc(cst):
    def f(c):
        st, p, v, m = col(c)
        st, pk, key = string(c, st, "id")
        outs = c.call(st, method(c, "doc", cst), p, [pk])
        w = c.S.fresh(c.T(DOC), "w")

        def ret(s, r):
            cl = [("only for stored identifiers", m.dom[key]), ("changes nothing", c.same(c.X.read(s, p), v))]
            if not isref(r):
                return cl + [("returns a reference", z3.BoolVal(False))]
            cl.append(("returns that very document", c.S.pack(c.X.load(s, r), c.T(DOC)) == docof(c, m, key)))
            n = mp(c, c.X.read(c.X.write(s, r, w), p))
            cl.append(("a write through the result changes exactly that document", z3.And(docof(c, n, key) == c.S.pack(w, c.T(DOC)), eqmap(n, lambda k: m.dom[k], lambda k: z3.If(k == key, n.val[key], m.val[k])))))
            return cl
        c.expect("CollectionMixin::doc%s" % (" const" if cst else ""), outs, ret,
                 lambda s, e, x: [("raises out_of_range", z3.BoolVal(e == OOR)), ("only for unknown identifiers", z3.Not(m.dom[key])), ("changes nothing", c.same(c.X.read(s, p), v))], cover=("v", "thr"))
    return f


def find(c):
    st, p, v, m = col(c)
    ds = c.S.sort(c.T(DOC))
    P = z3.Function("predicate", ds, z3.BoolSort())

    def h(X, f, s, this, args):
        d = X.load(s, args[0])
        return [Out(s, "v", P(simp(c.S.pack(d, c.T(DOC)))))]
    c.X.contracts["std::function"] = h
    f = c.S.fresh(c.T("std::function<bool(const NeoFOAM::Document &)>"), "predicate")
    st, pf = c.put(st, f, "predicate")
    outs = c.call(st, method(c, "find", True), p, [pf])

    def ret(s, r):
        t, u = z3.Ints("t u")
        k = z3.Const("k", Str)
        i = z3.Int("i")
        inr = lambda x: z3.And(0 <= x, x < r.n)
        A = lambda x: z3.Select(r.arr, x)
        return [("every result can be looked up", z3.ForAll([t], z3.Implies(inr(t), m.dom[A(t)]))),
                ("every result satisfies the predicate", z3.ForAll([t], z3.Implies(inr(t), P(docof(c, m, A(t)))))),
                ("no identifier twice", z3.ForAll([t, u], z3.Implies(z3.And(inr(t), inr(u), t != u), A(t) != A(u)))),
                ("every matching document is found", z3.ForAll([k], z3.Implies(z3.And(m.dom[k], P(docof(c, m, k))), z3.Exists([i], z3.And(inr(i), A(i) == k))))),
                ("changes nothing", c.same(c.X.read(s, p), v))]
    c.expect("CollectionMixin::find", outs, ret, cover=("v",))


def sortedkeys(c):
    st, p, v, m = col(c)
    outs = c.call(st, method(c, "sortedKeys", True), p, [])

    def ret(s, r):
        t, u = z3.Ints("t u")
        k = z3.Const("k", Str)
        i = z3.Int("i")
        inr = lambda x: z3.And(0 <= x, x < r.n)
        A = lambda x: z3.Select(r.arr, x)
        return [("every listed key is stored", z3.ForAll([t], z3.Implies(inr(t), m.dom[A(t)]))),
                ("no key twice", z3.ForAll([t, u], z3.Implies(z3.And(inr(t), inr(u), t != u), A(t) != A(u)))),
                ("every stored key is listed", z3.ForAll([k], z3.Implies(m.dom[k], z3.Exists([i], z3.And(inr(i), A(i) == k))))),
                ("ascending", z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t < u, u < r.n), z3.Not(c.X.std.less(A(u), A(t)))))),
                ("changes nothing", c.same(c.X.read(s, p), v))]
    c.expect("CollectionMixin::sortedKeys", outs, ret, cover=("v",))


def observers(c):
    st, p, v, m = col(c)
    same = lambda s: ("changes nothing", c.same(c.X.read(s, p), v))
    c.expect("CollectionMixin::size", c.call(st, method(c, "size", True), p, []), lambda s, r: [("is the number of documents", r == c.S.card(m.dom)), same(s)], cover=("v",))
    ty = c.S.lit("cxvDocT")
    c.expect("CollectionMixin::type", c.call(st, method(c, "type", True), p, []), lambda s, r: [("is the document type's name", c.X.load(s, r) == ty), same(s)], cover=("v",))


def built(c):
    """what the constructor is given is what name() and db() report, and it starts empty"""
    st, pd, dv = c.obj(c.state(), "NeoFOAM::Database", "db")
    st, pn, nm = string(c, st, "name")
    t, _ = mixin(c)
    k = z3.Const("k", Str)
    for o in c.new(st, t, ["NeoFOAM::Database &", "std::string"], [pd, nm]):
        def ret(s, r):
            s, p = c.put(s, r, "col")
            cl = [("starts without documents", z3.ForAll([k], z3.Not(mp(c, r).dom[k])))]
            for q in c.call(s, method(c, "name", True), p, []):
                cl.append(("name() is the given name", z3.Implies(z3.And(*q.st.pc), z3.And(q.k == "v", c.X.load(q.st, q.v) == nm))))
            for cst in (True, False):
                for q in c.call(s, method(c, "db", cst), p, []):
                    cl.append(("db() is the given database", z3.BoolVal(q.k == "v" and isref(q.v) and q.v.same(pd))))
            return cl
        c.expect("CollectionMixin(db, name)", [o], ret, cover=("v",))


CONTRACTS = [("CollectionMixin::doc", doc(False)), ("CollectionMixin::doc const", doc(True)), ("CollectionMixin::find", find), ("CollectionMixin::sortedKeys", sortedkeys),
             ("CollectionMixin size/type", observers), ("CollectionMixin(db, name)", built)]
