"""C06: the type-erased collection handle is a transparent, type-safe forwarder."""
from .common import *
from .C05 import new_collection, WRAPPED, COL
from cxv.sym import Out
from cxv.units import DB

UNIT = DB
BAD = "std::bad_cast"
STR = "std::string"


def handle(c, ty):
    st, pt, tv = c.obj(c.state(), ty, "wrapped")
    res = []
    for o in new_collection(c, st, ty, tv):
        if o.k != "v":
            raise Unsupported("wrapping a collection does not return")
        st, h = c.put(o.st, o.v, "handle")
        res.append((st, h, tv))
    return res


def recovered(c, s, h, ty):
    """the wrapped object as seen through as<T>()"""
    outs = [o for o in c.call(s, c.fn(COL + "::as", const=False, targs=[ty]), h, [])]
    if len(outs) != 1 or outs[0].k != "v":
        return None
    return outs[0].v


def field(v, n):
    return v.f[n]


def queries(ty):
    def f(c):
        T = c.T(ty)
        for st, h, tv in handle(c, ty):
            hv = c.X.read(st, h)
            same = lambda s: ("changes nothing", c.S.pack(c.X.read(s, h), c.T(COL)) == c.S.pack(hv, c.T(COL)))
            st, pk, key = string(c, st, "id")
            for cst in (False, True):
                w = c.S.fresh(c.T("NeoFOAM::Document"), "w")
                fld, oth = ("d2", "d6") if cst else ("d1", "d5")
                DT = c.T("NeoFOAM::Document")
                is_key = key == field(tv, "key")

                def ret(s, r):
                    cl = [same(s), ("gives the wrapped collection's answer", c.S.pack(c.X.load(s, r), DT) == z3.If(is_key, c.S.pack(field(tv, fld), DT), c.S.pack(field(tv, oth), DT)))]
                    if not isref(r):
                        return cl + [("returns a reference", z3.BoolVal(False))]
                    s2 = c.X.write(s, r, w)
                    p = recovered(c, s2, h, ty)
                    if p is None:
                        return cl + [("the wrapped object can be recovered", z3.BoolVal(False))]
                    n = c.X.load(s2, p)
                    return cl + [("a mutation through the result is visible in the wrapped object", c.S.pack(n, T) == z3.If(is_key, c.S.pack(tv.with_(fld, w), T), c.S.pack(tv.with_(oth, w), T)))]
                c.expect("Collection::doc%s [%s]" % (" const" if cst else "", ty), c.call(st, c.fn(COL + "::doc", const=cst), h, [pk]), ret, cover=("v",))
            pr = c.S.fresh(c.T("std::function<bool(const NeoFOAM::Document &)>"), "predicate")
            s1, pp = c.put(st, pr, "predicate")
            P = z3.Function("predicate_verdict", c.S.sort(c.T("NeoFOAM::Document")), z3.BoolSort())
            c.X.contracts["std::function"] = lambda X, f, s, this, args: [Out(s, "v", z3.And(f == c.S.pack(pr, None), P(c.S.pack(X.load(s, args[0]), c.T("NeoFOAM::Document")))))]
            hit = P(c.S.pack(field(tv, "d1"), c.T("NeoFOAM::Document")))
            c.expect("Collection::find [%s]" % ty, c.call(s1, c.fn(COL + "::find"), h, [pp]), lambda s, r: [same(s), ("gives the wrapped collection's answer", z3.If(hit, c.same_seq(c.X.load(s, r), field(tv, "found")), c.same_seq(c.X.load(s, r), field(tv, "found2"))))], cover=("v",))
            for m, fld in (("size", "n"), ("type", "ty"), ("name", "nm")):
                c.expect("Collection::%s [%s]" % (m, ty), c.call(st, c.fn(COL + "::" + m), h, []), lambda s, r: [same(s), ("gives the wrapped collection's answer", c.X.load(s, r) == field(tv, fld))], cover=("v",))
            for cst, fld in ((False, "d3"), (True, "d4")):
                c.expect("Collection::db%s [%s]" % (" const" if cst else "", ty), c.call(st, c.fn(COL + "::db", const=cst), h, []),
                         lambda s, r: [same(s), ("gives the wrapped collection's answer", z3.BoolVal(isref(r) and isref(field(tv, fld)) and r.same(field(tv, fld))))], cover=("v",))
    return f


def recover(have):
    def f(c):
        T = c.T(have)
        for st, h, tv in handle(c, have):
            hv = c.X.read(st, h)
            same = lambda s: ("changes nothing", c.S.pack(c.X.read(s, h), c.T(COL)) == c.S.pack(hv, c.T(COL)))
            for want in WRAPPED:
                for cst in (False, True):
                    nm = "Collection::as<%s>%s on a wrapped %s" % (want, " const" if cst else "", have)
                    outs = c.call(st, c.fn(COL + "::as", const=cst, targs=[want]), h, [])
                    if want != have:
                        c.expect(nm, outs, None, lambda s, e, x: [("raises bad_cast", z3.BoolVal(e == BAD)), same(s)], cover=("thr",))
                        continue
                    w = c.S.fresh(T, "w")

                    def ret(s, r):
                        cl = [same(s), ("yields the wrapped object", c.S.pack(c.X.load(s, r), T) == c.S.pack(tv, T))]
                        if not isref(r):
                            return cl + [("returns a reference", z3.BoolVal(False))]
                        s2 = c.X.write(s, r, w)
                        p = recovered(c, s2, h, have)
                        return cl + [("yields the same object every time", z3.BoolVal(False) if p is None else c.S.pack(c.X.load(s2, p), T) == c.S.pack(w, T))]
                    c.expect(nm, outs, ret, cover=("v",))
    return f


def moved(c):
    """moving a handle keeps the wrapped object"""
    for ty in WRAPPED:
        T = c.T(ty)
        for st, h, tv in handle(c, ty):
            outs = c.X.construct(st, c.T(COL), "void (Collection &&)", [h])

            def ret(s, r):
                s, p = c.put(s, r, "moved")
                q = recovered(c, s, p, ty)
                return [("the new handle holds the wrapped object", z3.BoolVal(False) if q is None else c.S.pack(c.X.load(s, q), T) == c.S.pack(tv, T))]
            c.expect("Collection move [%s]" % ty, outs, ret, cover=("v",))


CONTRACTS = ([("Collection queries [%s]" % t, queries(t)) for t in WRAPPED[:2]] + [("Collection::as on %s" % t, recover(t)) for t in WRAPPED] + [("Collection move", moved)])
