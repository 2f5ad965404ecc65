"""C03: documents always carry an identifier, unique unless supplied, and are validated."""
from .common import *
from cxv.sym import Out
from cxv.units import DB

UNIT = DB
D = "NeoFOAM::Document"
DICT = "NeoFOAM::Dictionary"
STR = "std::string"


def idkey(c):
    return c.S.lit("id")


def completed(c, n, m):
    """n is m completed by an identifier, every other entry unchanged"""
    k = z3.Const(fresh_name("k"), Str)
    i = idkey(c)
    return z3.And(n.dom[i], z3.Implies(m.dom[i], n.val[i] == m.val[i]),
                  z3.ForAll([k], z3.Implies(k != i, z3.And(n.dom[k] == m.dom[k], z3.Implies(m.dom[k], n.val[k] == m.val[k])))))


def validator(c, m, acc):
    """an arbitrary validator: on the completed document its verdict is acc, elsewhere arbitrary"""
    def h(X, f, st, this, args):
        v = X.load(st, args[0])
        r = z3.Bool(fresh_name("verdict"))
        st = st.assume(z3.Implies(completed(c, c.mapf(v)[1], m), r == acc)).event(("validated", c.mapf(v)[1]))
        return [Out(st, "v", r)]
    return h


def ctor_outs(c, st, pd, pf):
    return c.new(st, D, ["const NeoFOAM::Dictionary &", "NeoFOAM::DocumentValidator"], [pd, pf])


def ctor(c):
    st, pd, dv = c.obj(c.state(), DICT, "dict")
    m = mp(c, dv)
    f = c.S.fresh(c.T("std::function<bool(NeoFOAM::Dictionary)>"), "validator")
    st, pf = c.put(st, f, "validator")
    acc = z3.Bool("accepts_the_completed_document")
    c.X.contracts["std::function"] = validator(c, m, acc)
    outs = c.new(st, D, ["const NeoFOAM::Dictionary &", "std::function<bool(NeoFOAM::Dictionary)>"], [pd, f])

    def ret(s, r):
        n = mp(c, r)
        return [("has an identifier; a supplied one and every other entry unchanged", completed(c, n, m)),
                ("a generated identifier is a string", z3.Implies(z3.Not(m.dom[idkey(c)]), any_is(c, n.val[idkey(c)], STR))),
                ("succeeds only if the validator accepts the completed document", acc),
                ("argument unchanged", c.same(c.X.read(s, pd), dv))]
    c.expect("Document(dict, validator)", outs, ret,
             lambda s, e, x: [("raises runtime_error", z3.BoolVal(e == "std::runtime_error")), ("only if the validator rejects the completed document", z3.Not(acc))],
             cover=("v", "thr"))


def ctor_default(c):
    outs = c.new(c.state(), D, [], [])
    k = z3.Const("k", Str)

    def ret(s, r):
        n = mp(c, r)
        return [("has an identifier", n.dom[idkey(c)]), ("which is a string", any_is(c, n.val[idkey(c)], STR)), ("and nothing else", z3.ForAll([k], z3.Implies(n.dom[k], k == idkey(c))))]
    c.expect("Document()", outs, ret, cover=("v",))


def unique(c):
    """strictly monotone atomic counter + injective rendering => every generated id differs from every other"""
    def run(tag):
        st, pd, dv = c.obj(c.state(), DICT, "dict" + tag)
        m = mp(c, dv)
        f = c.S.fresh(c.T("std::function<bool(NeoFOAM::Dictionary)>"), "validator" + tag)
        st = st.assume(z3.Not(m.dom[idkey(c)]))
        c.X.contracts["std::function"] = lambda X, f, st, this, args: [Out(st, "v", z3.BoolVal(True))]
        outs = [("dict", o) for o in c.new(st, D, ["const NeoFOAM::Dictionary &", "std::function<bool(NeoFOAM::Dictionary)>"], [pd, f])]
        outs += [("default", o) for o in c.new(c.state(), D, [], [])]
        res = []
        for w, o in outs:
            if o.k != "v":
                if c.sat(o.st):
                    raise Unsupported("construction without validation failure does not return")
                continue
            rmw = [e[1] for e in o.st.log if e[0] == "atomic_rmw"]
            touched = [e for e in o.st.log if e[0] in ("atomic_store", "atomic_load")]
            res.append((w, o, rmw, touched))
        return res
    a, b = run("1"), run("2")

    for w, o, rmw, touched in a:
        c.prove("Document id counter (%s): exactly one atomic read-modify-write per construction" % w, State(), z3.BoolVal(len(rmw) == 1 and not touched and not str(rmw[0].root).startswith("static:tls:")))
        if len(rmw) != 1:
            continue
        old = o.st.statics0[rmw[0].root]
        c.prove("Document id counter (%s): strictly increases" % w, o.st, c.X.read(o.st, rmw[0]) > old)
    for wa, oa, ra, _ in a:
        for wb, ob, rb, _ in b:
            if len(ra) != 1 or len(rb) != 1:
                continue
            c.prove("Document ids (%s, %s): same counter" % (wa, wb), State(), z3.BoolVal(ra[0].root == rb[0].root))
            x, y = mp(c, oa.v).val[idkey(c)], mp(c, ob.v).val[idkey(c)]
            s = State()
            s.pc = tuple(oa.st.pc) + tuple(ob.st.pc) + (oa.st.statics0[ra[0].root] != ob.st.statics0[rb[0].root],)
            c.prove("Document ids (%s, %s): different counter values give different identifiers" % (wa, wb), s, x != y)


def validate(c):
    st, d, v = c.obj(c.state(), D, "doc")
    m = mp(c, v)
    acc = z3.Bool("accepts")

    def h(X, f, s, this, args):
        a = c.mapf(X.load(s, args[0]))[1]
        r = z3.Bool(fresh_name("verdict"))
        return [Out(s.assume(z3.Implies(c.same_map(a, m), r == acc)), "v", r)]
    c.X.contracts["std::function"] = h
    outs = c.call(st, c.fn(D + "::validate"), d, [])
    c.expect("Document::validate", outs, lambda s, r: [("returns true", r), ("only if the validator accepts", acc), ("changes nothing", c.same(c.X.read(s, d), v))],
             lambda s, e, x: [("raises runtime_error", z3.BoolVal(e == "std::runtime_error")), ("only if the validator rejects", z3.Not(acc)), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v", "thr"))


def reader(qn, key, member, cst=None):
    def f(c):
        st, d, v = c.obj(c.state(), D, "doc")
        m = mp(c, v)
        k = c.S.lit(key)
        fs = [x for x in c.u.find_functions(qn) if c.u.params(x) or member]
        if cst is not None:
            fs = [x for x in fs if ("const" in c.u.sig(x).split("(", 1)[1]) == cst]
        if len(fs) != 1:
            raise Unsupported("%d functions %s" % (len(fs), qn))
        outs = c.call(st, fs[0], d if member else None, [] if member else [d])
        isS = any_is(c, m.val[k], STR)
        c.expect("%s%s" % (qn, " const" if cst else ""), outs,
                 lambda s, r: [("returns exactly the stored entry", z3.And(m.dom[k], isS, c.X.load(s, r) == c.S.from_any(m.val[k], c.T(STR)))), ("changes nothing", c.same(c.X.read(s, d), v))],
                 lambda s, e, x: [("raises only without a string entry", z3.Or(z3.Not(m.dom[k]), z3.Not(isS))), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))
    return f


def hasid(c):
    st, d, v = c.obj(c.state(), DICT, "dict")
    m = mp(c, v)
    outs = c.call(st, c.fn("NeoFOAM::hasId"), None, [d])
    c.expect("hasId (default validator)", outs, lambda s, r: [("true exactly with an id entry", r == m.dom[idkey(c)])], cover=("v",))


CONTRACTS = [("Document(dict, validator)", ctor), ("Document()", ctor_default), ("Document ids", unique), ("Document::validate", validate),
             ("Document::id", reader(D + "::id", "id", True)), ("name", reader("NeoFOAM::name", "name", False, False)), ("name const", reader("NeoFOAM::name", "name", False, True)), ("hasId", hasid)]
