"""C05: a database stores named collections uniquely and never overwrites one."""
from .common import *
from cxv.units import DB

UNIT = DB
D = "NeoFOAM::Database"
COL = "NeoFOAM::Collection"
OOR, BAD = "std::out_of_range", "std::bad_cast"


def base(c):
    st, d, v = c.obj(c.state(), D, "db")
    st, pk, key = string(c, st, "name")
    return st, d, v, mp(c, v), pk, key


def entry(c, m, key):
    """the stored collection handle as a term"""
    return m.val[key]


def insert(c):
    st, d, v, m, pk, key = base(c)
    st, pc_, cv = c.obj(st, COL, "col")
    ct = c.S.pack(cv, c.T(COL))
    outs = c.call(st, c.fn(D + "::insert"), d, [pk, pc_])
    w = c.S.pack(c.S.fresh(c.T(COL), "w"), c.T(COL))

    def ret(s, r):
        n = mp(c, c.X.read(s, d))
        cl = [("stored under the name", n.dom[key]),
              ("a new name stores the given collection, an existing one keeps its own", n.val[key] == z3.If(m.dom[key], m.val[key], ct)),
              ("no other name changes", eqmap(n, lambda k: z3.Or(m.dom[k], k == key), lambda k: z3.If(k == key, n.val[key], m.val[k])))]
        if isref(r):
            n2 = mp(c, c.X.read(c.X.write(s, r, c.S.unpack(w, c.T(COL))), d))
            cl.append(("returns the stored collection", z3.And(n2.val[key] == w, eqmap(n2, lambda k: n.dom[k], lambda k: z3.If(k == key, w, n.val[k])))))
        else:
            cl.append(("returns a reference to the stored collection", z3.BoolVal(False)))
        return cl
    c.expect("Database::insert", outs, ret, cover=("v",))


def contains(c):
    st, d, v, m, pk, key = base(c)
    outs = c.call(st, c.fn(D + "::contains"), d, [pk])
    c.expect("Database::contains", outs, lambda s, r: [("true exactly for stored names", r == m.dom[key]), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


def size(c):
    st, d, v, m, pk, key = base(c)
    outs = c.call(st, c.fn(D + "::size"), d, [])
    c.expect("Database::size", outs, lambda s, r: [("is the number of stored names", r == c.S.card(m.dom)), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


def remove(c):
    st, d, v, m, pk, key = base(c)
    outs = c.call(st, c.fn(D + "::remove"), d, [pk])

    def ret(s, r):
        n = mp(c, c.X.read(s, d))
        return [("reports whether the name was present", r == m.dom[key]), ("the name is absent afterwards", z3.Not(n.dom[key])),
                ("no other name changes", eqmap(n, lambda k: z3.And(m.dom[k], k != key), lambda k: m.val[k]))]
    c.expect("Database::remove", outs, ret, cover=("v",))


def at(cst):
    def f(c):
        st, d, v, m, pk, key = base(c)
        outs = c.call(st, c.fn(D + "::at", params=["const std::string &"], const=cst, which=lambda x: not c.u.targs(x)), d, [pk])
        w = c.S.pack(c.S.fresh(c.T(COL), "w"), c.T(COL))

        def ret(s, r):
            cl = [("only for stored names", m.dom[key]), ("changes nothing", c.same(c.X.read(s, d), v))]
            if not isref(r):
                return cl + [("returns a reference", z3.BoolVal(False))]
            n2 = mp(c, c.X.read(c.X.write(s, r, c.S.unpack(w, c.T(COL))), d))
            return cl + [("returns the stored collection", z3.And(n2.val[key] == w, eqmap(n2, lambda k: m.dom[k], lambda k: z3.If(k == key, w, m.val[k]))))]
        c.expect("Database::at%s" % (" const" if cst else ""), outs, ret,
                 lambda s, e, x: [("raises out_of_range", z3.BoolVal(e == OOR)), ("only for absent names", z3.Not(m.dom[key])), ("creates and changes nothing", c.same(c.X.read(s, d), v))], cover=("v", "thr"))
    return f


WRAPPED = ["NeoFOAM::cxv::Any<1>", "NeoFOAM::cxv::Any<2>", "NeoFOAM::cxv::ColT"]


def at_typed(c):
    """a database holding one collection of known type next to arbitrary others"""
    for have in WRAPPED:
        for want in WRAPPED:
            st = c.state()
            st, pt, tv = c.obj(st, have, "wrapped")
            cols = [o for o in new_collection(c, st, have, tv)]
            for o in cols:
                if o.k != "v":
                    raise Unsupported("wrapping a collection does not return")
                st, d, v = c.obj(o.st, D, "db")
                st, pk, key = string(c, st, "name")
                steps, m = c.mapf(v)
                m2 = MapV(m.kty, m.vty, z3.Store(m.dom, key, True), z3.Store(m.val, key, c.S.pack(o.v, c.T(COL))), m.kind)
                st = c.X.write(st, Path(d.root, d.steps + tuple(steps)), m2)
                v = c.X.read(st, d)
                outs = c.call(st, c.fn(D + "::at", params=["const std::string &"], targs=[want]), d, [pk])
                T = c.T(have)
                c.expect("Database::at<%s> on a stored %s" % (want, have), outs,
                         (lambda s, r: [("gives the stored object", c.S.pack(c.X.load(s, r), T) == c.S.pack(tv, T)), ("changes nothing", c.same(c.X.read(s, d), v))]) if have == want else None,
                         (lambda s, e, x: [("raises bad_cast", z3.BoolVal(e == BAD)), ("changes nothing", c.same(c.X.read(s, d), v))]) if have != want else None,
                         cover=("v",) if have == want else ("thr",))
        st, d, v, m, pk, key = base(c)
        st = st.assume(z3.Not(m.dom[key]))
        outs = c.call(st, c.fn(D + "::at", params=["const std::string &"], targs=[have]), d, [pk])
        c.expect("Database::at<%s> of an absent name" % have, outs, None,
                 lambda s, e, x: [("raises out_of_range", z3.BoolVal(e == OOR)), ("creates and changes nothing", c.same(c.X.read(s, d), v))], cover=("thr",))


def new_collection(c, st, ty, v):
    cls = c.u.find_class(c.T(COL))
    for m in c.X.ctors(cls):
        ps = [str(c.u.ty(x)) for x in c.u.params(m)]
        if ps == [str(c.T(ty))] and c.u.definition(m) is not None and not c.u.is_dependent(m):
            return c.X.construct(st, c.T(COL), m["type"]["qualType"], [v])
    raise Unsupported("no Collection(%s)" % ty)


CONTRACTS = [("Database::insert", insert), ("Database::contains", contains), ("Database::size", size), ("Database::remove", remove),
             ("Database::at", at(False)), ("Database::at const", at(True)), ("Database::at<T>", at_typed)]
