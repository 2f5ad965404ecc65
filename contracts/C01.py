"""C01: Dictionary is an exact key -> value map."""
import z3
from cxv.sym import *
from cxv.ast import Ty, Unsupported
from cxv.units import CORE

UNIT = CORE
D = "NeoFOAM::Dictionary"


def view(c, v):
    return c.mapf(v)[1]


def eqmap(c, m, dom, valf):
    """m equals the map with domain dom(k) and values valf(k)"""
    k = z3.Const(fresh_name("k"), Str)
    return z3.ForAll([k], z3.And(m.dom[k] == dom(k), z3.Implies(dom(k), m.val[k] == valf(k))))


def insert(c):
    st, d, v = c.obj(c.state(), D, "d")
    key = c.S.fresh(c.T("std::string"), "key")
    val_ = c.S.fresh(c.T("std::any"), "value")
    st, pk = c.put(st, key, "key")
    st, pv = c.put(st, val_, "value")
    m = view(c, v)
    f = c.fn(D + "::insert")
    args = [pk, pv]
    outs = c.call(st, f, d, args)

    def ret(s, r):
        n = view(c, c.X.read(s, d))
        return [("the key is present", n.dom[key]), ("with exactly the inserted value", n.val[key] == val_),
                ("no other key changes", eqmap(c, n, lambda k: z3.Or(m.dom[k], k == key), lambda k: z3.If(k == key, val_, m.val[k]))),
                ("key and value arguments unchanged", z3.And(c.X.read(s, pk) == key))]
    c.expect("Dictionary::insert", outs, ret, cover=("v",))


def remove(c):
    st, d, v = c.obj(c.state(), D, "d")
    key = c.S.fresh(c.T("std::string"), "key")
    st, pk = c.put(st, key, "key")
    m = view(c, v)
    outs = c.call(st, c.fn(D + "::remove"), d, [pk])

    def ret(s, r):
        n = view(c, c.X.read(s, d))
        return [("the key is absent", z3.Not(n.dom[key])),
                ("no other key changes", eqmap(c, n, lambda k: z3.And(m.dom[k], k != key), lambda k: m.val[k]))]
    c.expect("Dictionary::remove", outs, ret, cover=("v",))


def contains(c):
    st, d, v = c.obj(c.state(), D, "d")
    key = c.S.fresh(c.T("std::string"), "key")
    st, pk = c.put(st, key, "key")
    m = view(c, v)
    outs = c.call(st, c.fn(D + "::contains"), d, [pk])
    c.expect("Dictionary::contains", outs, lambda s, r: [("true exactly for present keys", r == m.dom[key]), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


def empty(c):
    st, d, v = c.obj(c.state(), D, "d")
    m = view(c, v)
    k = z3.Const("kk", Str)
    outs = c.call(st, c.fn(D + "::empty"), d, [])
    c.expect("Dictionary::empty", outs, lambda s, r: [
        ("true only without keys", z3.Implies(r, z3.ForAll([k], z3.Not(m.dom[k])))),
        ("false only with a key", z3.Implies(z3.ForAll([k], z3.Not(m.dom[k])), r)),
        ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


def keys(c):
    st, d, v = c.obj(c.state(), D, "d")
    m = view(c, v)
    outs = c.call(st, c.fn(D + "::keys"), d, [])

    def ret(s, r):
        t, u = z3.Ints("t u")
        k = z3.Const("k", Str)
        i = z3.Int("i")
        inr = lambda x: z3.And(0 <= x, x < r.n)
        return [("every listed key is present", z3.ForAll([t], z3.Implies(inr(t), m.dom[z3.Select(r.arr, t)]))),
                ("no key is listed twice", z3.ForAll([t, u], z3.Implies(z3.And(inr(t), inr(u), t != u), z3.Select(r.arr, t) != z3.Select(r.arr, u)))),
                ("every present key is listed", z3.ForAll([k], z3.Implies(m.dom[k], z3.Exists([i], z3.And(inr(i), z3.Select(r.arr, i) == k))))),
                ("changes nothing", c.same(c.X.read(s, d), v))]
    c.expect("Dictionary::keys", outs, ret, cover=("v",))


def ctor_map(c):
    ty = c.T("std::unordered_map<std::string, std::any>")
    mv = c.S.fresh(ty, "keyValuePairs")
    st, p = c.put(c.state(), mv, "kv")
    outs = c.new(st, D, ["const std::unordered_map<std::string, std::any> &"], [p])

    def ret(s, r):
        n = view(c, r)
        return [("exactly the given entries", c.same_map(n, mv)), ("argument unchanged", c.same(c.X.read(s, p), mv))]
    c.expect("Dictionary(map)", outs, ret, cover=("v",))


def ctor_list(c):
    ty = c.T("std::initializer_list<std::pair<std::string, std::any>>")
    q = c.S.fresh(ty, "list")
    st, p = c.put(c.state(), q, "list")
    outs = c.new(st, D, ["const std::initializer_list<std::pair<std::string, std::any>> &"], [p])
    ps = c.S.sort(c.T("std::pair<std::string, std::any>"))
    K = lambda t: ps.accessor(0, 0)(z3.Select(q.arr, t))
    V = lambda t: ps.accessor(0, 1)(z3.Select(q.arr, t))

    def ret(s, r):
        n = view(c, r)
        k = z3.Const("k", Str)
        t, u = z3.Ints("t u")
        inr = lambda x: z3.And(0 <= x, x < q.n)
        first = z3.And(inr(t), z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < t), K(u) != K(t))))
        return [("contains every given key", z3.ForAll([t], z3.Implies(inr(t), n.dom[K(t)]))),
                ("contains no other key", z3.ForAll([k], z3.Implies(n.dom[k], z3.Exists([t], z3.And(inr(t), K(t) == k))))),
                ("the first entry of a repeated key wins", z3.ForAll([t], z3.Implies(first, n.val[K(t)] == V(t))))]
    c.expect("Dictionary(initializer_list)", outs, ret, cover=("v",))


def ctor_default(c):
    outs = c.new(c.state(), D, [], [])
    k = z3.Const("k", Str)
    c.expect("Dictionary()", outs, lambda s, r: [("is empty", z3.ForAll([k], z3.Not(view(c, r).dom[k])))], cover=("v",))


def copies(c):
    st, d, v = c.obj(c.state(), D, "d")
    outs = c.X.construct(st, c.T(D), "void (const %s &)" % "Dictionary", [d])
    key = c.S.fresh(c.T("std::string"), "key")
    val_ = c.S.fresh(c.T("std::any"), "value")

    def ret(s, r):
        s2, e = c.put(s, r, "copy")
        gl = [("copy has the same entries", c.same(r, v))]
        s2, pk = c.put(s2, key, "key")
        s2, pv = c.put(s2, val_, "value")
        for o in c.call(s2, c.fn(D + "::insert"), e, [pk, pv]):
            gl.append(("inserting into the copy leaves the original alone", z3.Implies(z3.And(*o.st.pc), z3.And(z3.BoolVal(o.k == "v"), c.same(c.X.read(o.st, d), v)))))
        for o in c.call(s2, c.fn(D + "::remove"), d, [pk]):
            gl.append(("removing from the original leaves the copy alone", z3.Implies(z3.And(*o.st.pc), z3.And(z3.BoolVal(o.k == "v"), c.same(c.X.read(o.st, e), v)))))
        return gl
    c.expect("Dictionary copy", outs, ret, cover=("v",))


def getmap(c):
    st, d, v = c.obj(c.state(), D, "d")
    m = view(c, v)
    for cst in (True, False):
        fs = c.u.find_functions(D + "::getMap", const=cst)
        for f in fs:
            outs = c.call(st, f, d, [])
            c.expect("Dictionary::getMap%s" % (" const" if cst else ""), outs, lambda s, r: [("gives the entries", c.same_map(c.X.load(s, r), m)), ("changes nothing", c.same(c.X.read(s, d), v))], cover=("v",))


CONTRACTS = [("Dictionary::insert", insert), ("Dictionary::remove", remove), ("Dictionary::contains", contains), ("Dictionary::empty", empty),
             ("Dictionary::keys", keys), ("Dictionary(map)", ctor_map), ("Dictionary(initializer_list)", ctor_list),
             ("Dictionary()", ctor_default), ("Dictionary copy", copies), ("Dictionary::getMap", getmap)]
