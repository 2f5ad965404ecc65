"""C02: typed dictionary access is exact, type-checked and leaves no trace on error."""
from .common import *
from cxv.units import CORE

UNIT = CORE
D = "NeoFOAM::Dictionary"
OOR, BAD = "std::out_of_range", "std::bad_any_cast"
TYPES = ["int", "double", "std::string", "bool", "NeoFOAM::cxv::Opaque", "NeoFOAM::Dictionary", "NeoFOAM::TokenList"]


def ref_clauses(c, s, d, v, m, key, r, ty, newval):
    """r refers to the entry itself: a write through it is what later reads of that key (and only that key) see"""
    if not isref(r):
        return [("returns a reference to the entry", z3.BoolVal(False))]
    out = [("changes nothing", c.same(c.X.read(s, d), v))]
    s2 = c.X.write(s, r, newval)
    n = mp(c, c.X.read(s2, d))
    want = newval if ty is None else c.S.to_any(newval, c.T(ty))
    out.append(("a write through the result is the stored value of that key", n.val[key] == want))
    out.append(("a write through the result changes no other key", eqmap(n, lambda k: m.dom[k], lambda k: z3.If(k == key, want, m.val[k]))))
    return out


def subscript(cst):
    def f(c):
        st, d, v = c.obj(c.state(), D, "d")
        st, pk, key = string(c, st)
        m = mp(c, v)
        outs = c.call(st, c.fn(D + "::operator[]", const=cst), d, [pk])
        w = c.S.fresh(c.T("std::any"), "w")
        c.expect("Dictionary::operator[]%s" % (" const" if cst else ""), outs,
                 lambda s, r: [("only for present keys", m.dom[key]), ("gives the stored value", c.X.load(s, r) == m.val[key])] + ref_clauses(c, s, d, v, m, key, r, None, w),
                 lambda s, e, x: [("throws out_of_range", z3.BoolVal(e == OOR)), ("only for missing keys", z3.Not(m.dom[key])), ("changes nothing", c.same(c.X.read(s, d), v))],
                 cover=("v", "thr"))
    return f


def get(ty, cst):
    def f(c):
        st, d, v = c.obj(c.state(), D, "d")
        st, pk, key = string(c, st)
        m = mp(c, v)
        T = c.T(ty)
        outs = c.call(st, c.fn(D + "::get", const=cst, targs=[ty]), d, [pk])
        w = c.S.fresh(T, "w")
        isT = any_is(c, m.val[key], ty)
        c.expect("Dictionary::get<%s>%s" % (ty, " const" if cst else ""), outs,
                 lambda s, r: [("only for present keys", m.dom[key]), ("only for the stored type", isT),
                               ("gives the stored value", c.same(c.X.load(s, r), c.S.from_any(m.val[key], T)))] + ref_clauses(c, s, d, v, m, key, r, ty, w),
                 lambda s, e, x: [("throws out_of_range exactly for a missing key", z3.Not(m.dom[key]) if e == OOR else m.dom[key]),
                                  ("throws bad_any_cast exactly for another type", z3.Not(isT) if e == BAD else z3.BoolVal(e == OOR)),
                                  ("changes nothing", c.same(c.X.read(s, d), v))],
                 cover=("v", "thr"))
    return f


def isdict(c):
    st, d, v = c.obj(c.state(), D, "d")
    st, pk, key = string(c, st)
    m = mp(c, v)
    outs = c.call(st, c.fn(D + "::isDict"), d, [pk])
    c.expect("Dictionary::isDict", outs, lambda s, r: [
        ("true exactly for a present dictionary", r == z3.And(m.dom[key], any_is(c, m.val[key], D))), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


def subdict(cst):
    def f(c):
        st, d, v = c.obj(c.state(), D, "d")
        st, pk, key = string(c, st)
        m = mp(c, v)
        outs = c.call(st, c.fn(D + "::subDict", const=cst), d, [pk])
        w = c.S.fresh(c.T(D), "w")
        isT = any_is(c, m.val[key], D)
        c.expect("Dictionary::subDict%s" % (" const" if cst else ""), outs,
                 lambda s, r: [("only for present dictionaries", z3.And(m.dom[key], isT)),
                               ("refers to the stored dictionary", c.same(c.X.load(s, r), c.S.from_any(m.val[key], c.T(D))))] + ref_clauses(c, s, d, v, m, key, r, D, w),
                 lambda s, e, x: [("throws out_of_range exactly for a missing key", z3.Not(m.dom[key]) if e == OOR else m.dom[key]),
                                  ("throws bad_any_cast exactly for another type", z3.Not(isT) if e == BAD else z3.BoolVal(e == OOR)),
                                  ("changes nothing", c.same(c.X.read(s, d), v))],
                 cover=("v", "thr"))
    return f


CONTRACTS = ([("Dictionary::operator[]", subscript(False)), ("Dictionary::operator[] const", subscript(True)), ("Dictionary::isDict", isdict),
              ("Dictionary::subDict", subdict(False)), ("Dictionary::subDict const", subdict(True))]
             + [("Dictionary::get<%s>%s" % (t, " const" if k else ""), get(t, k)) for t in TYPES for k in (False, True)])
