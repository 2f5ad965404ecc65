"""C09: the stencil cache keeps the first value stored under a key, with typed access."""
from .common import *
from cxv.units import STENCIL

UNIT = STENCIL
D = "NeoFOAM::StencilDataBase"
OOR, BAD = "std::out_of_range", "std::bad_any_cast"
TYPES = ["int", "double", "std::string", "NeoFOAM::cxv::Opaque", "std::vector<int>", "std::shared_ptr<NeoFOAM::cxv::Opaque>"]


def base(c):
    st, d, v = c.obj(c.state(), D, "cache")
    st, pk, key = string(c, st)
    return st, d, v, mp(c, v), pk, key


def insert(ty):
    def f(c):
        st, d, v, m, pk, key = base(c)
        T = c.T(ty)
        x = c.S.fresh(T, "value")
        outs = c.call(st, c.fn(D + "::insert", targs=[ty]), d, [pk, x])

        def ret(s, r):
            n = mp(c, c.X.read(s, d))
            a = c.S.to_any(x, T)
            return [("the key is stored", n.dom[key]), ("the first value is kept, a new key gets the given value", n.val[key] == z3.If(m.dom[key], m.val[key], a)),
                    ("no other key changes", eqmap(n, lambda k: z3.Or(m.dom[k], k == key), lambda k: z3.If(k == key, n.val[key], m.val[k])))]
        c.expect("StencilDataBase::insert<%s>" % ty, outs, ret, cover=("v",))
    return f


def refs(c, s, d, v, m, key, r, ty):
    if not isref(r):
        return [("returns a reference to the entry", z3.BoolVal(False))]
    w = c.S.fresh(c.T(ty), "w")
    a = w if ty == "std::any" else c.S.to_any(w, c.T(ty))
    n = mp(c, c.X.read(c.X.write(s, r, w), d))
    return [("changes nothing", c.same(c.X.read(s, d), v)),
            ("a write through the result changes exactly that entry", eqmap(n, lambda k: m.dom[k], lambda k: z3.If(k == key, a, m.val[k])))]


def get(ty, cst):
    def f(c):
        st, d, v, m, pk, key = base(c)
        T = c.T(ty)
        isT = any_is(c, m.val[key], ty)
        outs = c.call(st, c.fn(D + "::get", const=cst, targs=[ty]), d, [pk])
        c.expect("StencilDataBase::get<%s>%s" % (ty, " const" if cst else ""), outs,
                 lambda s, r: [("only for stored keys of that type", z3.And(m.dom[key], isT)), ("gives the stored value", c.same(c.X.load(s, r), c.S.from_any(m.val[key], T)))] + refs(c, s, d, v, m, key, r, ty),
                 lambda s, e, x: [("raises out_of_range exactly for an absent key", z3.Not(m.dom[key]) if e == OOR else m.dom[key]),
                                  ("raises bad_any_cast exactly for another type", z3.Not(isT) if e == BAD else z3.BoolVal(e == OOR)), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v", "thr"))
    return f


def subscript(cst):
    def f(c):
        st, d, v, m, pk, key = base(c)
        outs = c.call(st, c.fn(D + "::operator[]", const=cst), d, [pk])
        c.expect("StencilDataBase::operator[]%s" % (" const" if cst else ""), outs,
                 lambda s, r: [("only for stored keys", m.dom[key]), ("gives the stored value", c.X.load(s, r) == m.val[key])] + refs(c, s, d, v, m, key, r, "std::any"),
                 lambda s, e, x: [("raises out_of_range exactly for an absent key", z3.And(z3.Not(m.dom[key]), z3.BoolVal(e == OOR))), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v", "thr"))
    return f


def contains(c):
    st, d, v, m, pk, key = base(c)
    outs = c.call(st, c.fn(D + "::contains"), d, [pk])
    c.expect("StencilDataBase::contains", outs, lambda s, r: [("true exactly for stored keys", r == m.dom[key]), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


CONTRACTS = ([("StencilDataBase::contains", contains), ("StencilDataBase::operator[]", subscript(False)), ("StencilDataBase::operator[] const", subscript(True))]
             + [("StencilDataBase::insert<%s>" % t, insert(t)) for t in TYPES]
             + [("StencilDataBase::get<%s>%s" % (t, " const" if k else ""), get(t, k)) for t in TYPES for k in (False, True)])
