"""C08: a token list is an exact typed sequence with a forward cursor."""
from .common import *
from cxv.units import CORE

UNIT = CORE
L = "NeoFOAM::TokenList"
OOR, BAD = "std::out_of_range", "std::bad_any_cast"
TYPES = ["int", "double", "std::string", "NeoFOAM::cxv::Opaque", "NeoFOAM::Dictionary", "NeoFOAM::TokenList"]


def view(c, v):
    """(tokens, cursor): the one sequence and the one integer of the representation"""
    q = c.seqf(v)[1]
    ints = [x for x in v.f.values() if isinstance(x, z3.ArithRef)]
    if len(ints) != 1:
        raise Unsupported("representation: expected one cursor, found %d integers" % len(ints))
    return q, ints[0]


def seq_is(q, n, at):
    t = z3.Int(fresh_name("t"))
    return z3.And(q.n == n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.Select(q.arr, t) == at(t))))


def lst(c, name="l"):
    st, l, v = c.obj(c.state(), L, name)
    q, cur = view(c, v)
    return st.assume(z3.And(q.n >= 0, cur >= 0)), l, v, q, cur


def A(q, i):
    return z3.Select(q.arr, i)


def insert(c):
    st, l, v, q, cur = lst(c)
    val_ = c.S.fresh(c.T("std::any"), "value")
    st, pv = c.put(st, val_, "value")
    outs = c.call(st, c.fn(L + "::insert"), l, [pv])

    def ret(s, r):
        n, k = view(c, c.X.read(s, l))
        return [("appends exactly the token", seq_is(n, q.n + 1, lambda t: z3.If(t == q.n, val_, A(q, t)))), ("cursor stays", k == cur)]
    c.expect("TokenList::insert", outs, ret, cover=("v",))


def remove(c):
    st, l, v, q, cur = lst(c)
    st, pi, i = num(c, st, "size_t", "index")
    st = st.assume(z3.And(i >= 0, i < q.n))
    outs = c.call(st, c.fn(L + "::remove"), l, [i])

    def ret(s, r):
        n, k = view(c, c.X.read(s, l))
        return [("deletes exactly that token, keeping the order", seq_is(n, q.n - 1, lambda t: z3.If(t < i, A(q, t), A(q, t + 1)))), ("cursor stays", k == cur)]
    c.expect("TokenList::remove", outs, ret, cover=("v",))


def observers(c):
    st, l, v, q, cur = lst(c)
    same = lambda s: ("changes nothing", c.same(c.X.read(s, l), v))
    c.expect("TokenList::size", c.call(st, c.fn(L + "::size"), l, []), lambda s, r: [("is the number of tokens", r == q.n), same(s)], cover=("v",))
    c.expect("TokenList::empty", c.call(st, c.fn(L + "::empty"), l, []), lambda s, r: [("true exactly without tokens", r == (q.n == 0)), same(s)], cover=("v",))
    c.expect("TokenList::tokens", c.call(st, c.fn(L + "::tokens"), l, []), lambda s, r: [("gives the tokens", c.same_seq(c.X.load(s, r), q)), same(s)], cover=("v",))


def typed(c, q, i, ty):
    return z3.And(i >= 0, i < q.n, any_is(c, A(q, i), ty))


def thr_clauses(c, q, i, ty, s, l, v, e):
    return [("throws out_of_range exactly past the end", i >= q.n if e == OOR else i < q.n),
            ("throws bad_any_cast exactly for another type", z3.Not(any_is(c, A(q, i), ty)) if e == BAD else z3.BoolVal(e == OOR)),
            ("changes nothing", c.same(c.X.read(s, l), v))]


def through(c, s, l, q, cur, r, i, ty):
    """writes through the returned reference land in token i and nowhere else"""
    if not isref(r):
        return [("returns a reference to the token", z3.BoolVal(False))]
    w = c.S.fresh(c.T(ty), "w")
    n, k = view(c, c.X.read(c.X.write(s, r, w), l))
    return [("a write through the result changes exactly that token", seq_is(n, q.n, lambda t: z3.If(t == i, c.S.to_any(w, c.T(ty)), A(q, t))))]


def get(ty, cst):
    def f(c):
        st, l, v, q, cur = lst(c)
        st, pi, i = num(c, st, "size_t", "index")
        st = st.assume(i >= 0)
        T = c.T(ty)
        outs = c.call(st, c.fn(L + "::get", const=cst, targs=[ty]), l, [pi])
        c.expect("TokenList::get<%s>%s" % (ty, " const" if cst else ""), outs,
                 lambda s, r: [("only in range and for the stored type", typed(c, q, i, ty)),
                               ("gives that token", c.same(c.X.load(s, r), c.S.from_any(A(q, i), T))),
                               ("changes nothing", c.same(c.X.read(s, l), v))] + through(c, s, l, q, cur, r, i, ty),
                 lambda s, e, x: thr_clauses(c, q, i, ty, s, l, v, e), cover=("v", "thr"))
    return f


def nxt(ty, cst):
    def f(c):
        st, l, v, q, cur = lst(c)
        T = c.T(ty)
        outs = c.call(st, c.fn(L + "::next", const=cst, targs=[ty]), l, [])

        def ret(s, r):
            n, k = view(c, c.X.read(s, l))
            return [("only when the cursor is in range and the type matches", typed(c, q, cur, ty)),
                    ("gives the token at the cursor", c.same(c.X.load(s, r), c.S.from_any(A(q, cur), T))),
                    ("advances by exactly one", k == cur + 1), ("tokens unchanged", c.same_seq(n, q))] + through(c, s, l, q, cur, r, cur, ty)
        c.expect("TokenList::next<%s>%s" % (ty, " const" if cst else ""), outs, ret,
                 lambda s, e, x: thr_clauses(c, q, cur, ty, s, l, v, e), cover=("v", "thr"))
    return f


def pop(ty):
    def f(c):
        st, l, v, q, cur = lst(c)
        T = c.T(ty)
        outs = c.call(st, c.fn(L + "::popFront", targs=[ty]), l, [])

        def ret(s, r):
            n, k = view(c, c.X.read(s, l))
            return [("only with a first token of that type", typed(c, q, iv(0), ty)),
                    ("returns the first token", c.same(c.X.load(s, r), c.S.from_any(A(q, iv(0)), T))),
                    ("removes exactly the first token", seq_is(n, q.n - 1, lambda t: A(q, t + 1))), ("cursor stays", k == cur)]
        c.expect("TokenList::popFront<%s>" % ty, outs, ret, lambda s, e, x: thr_clauses(c, q, iv(0), ty, s, l, v, e), cover=("v", "thr"))
    return f


def ctors(c):
    outs = c.new(c.state(), L, [], [])
    c.expect("TokenList()", outs, lambda s, r: [("is empty", view(c, r)[0].n == 0), ("cursor at the start", view(c, r)[1] == 0)], cover=("v",))
    q = c.S.fresh(c.T("std::vector<std::any>"), "tokens")
    st, p = c.put(c.state().assume(q.n >= 0), q, "tokens")
    k = c.S.fresh(c.T("size_t"), "start")
    outs = c.new(st, L, ["const std::vector<std::any> &", "size_t"], [p, k])
    c.expect("TokenList(vector, start)", outs, lambda s, r: [("exactly the given tokens", c.same_seq(view(c, r)[0], q)), ("cursor at the given start", view(c, r)[1] == k)], cover=("v",))
    q = c.S.fresh(c.T("std::initializer_list<std::any>"), "list")
    st, p = c.put(c.state().assume(q.n >= 0), q, "list")
    outs = c.new(st, L, ["const std::initializer_list<std::any> &"], [p])
    c.expect("TokenList(initializer_list)", outs, lambda s, r: [("exactly the given tokens", c.same_seq(view(c, r)[0], q)), ("cursor at the start", view(c, r)[1] == 0)], cover=("v",))
    st, l, v, q, cur = lst(c)
    outs = c.X.construct(st, c.T(L), "void (const TokenList &)", [l])
    c.expect("TokenList copy", outs, lambda s, r: [("same tokens", c.same_seq(view(c, r)[0], q)), ("same cursor", view(c, r)[1] == cur), ("original unchanged", c.same(c.X.read(s, l), v))], cover=("v",))


CONTRACTS = ([("TokenList::insert", insert), ("TokenList::remove", remove), ("TokenList size/empty/tokens", observers), ("TokenList constructors", ctors)]
             + [("TokenList::get<%s>%s" % (t, " const" if k else ""), get(t, k)) for t in TYPES for k in (False, True)]
             + [("TokenList::next<%s>%s" % (t, " const" if k else ""), nxt(t, k)) for t in TYPES for k in (False, True)]
             + [("TokenList::popFront<%s>" % t, pop(t)) for t in TYPES])
