"""C19: the sparsity pattern of a mesh is a valid matrix layout and its offsets locate the entries of the faces."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import FV_IMPL
from .C14 import IX

UNIT = FV_IMPL
SP = CC + "SparsityPattern"


def fa1(n, f, pat=None):
    t = z3.Int(fresh_name("t"))
    b = z3.Implies(z3.And(0 <= t, t < n), f(t))
    return z3.ForAll([t], b, patterns=[pat(t)]) if pat else z3.ForAll([t], b)


class Counts:
    """per cell: the internal faces it owns, and those it is the neighbour of"""

    def __init__(self, c, m):
        o = c.sumt(lambda j, t: z3.If(m.owner.arr[j] == t, iv(1), iv(0)), I)
        n = c.sumt(lambda j, t: z3.If(m.neighbour.arr[j] == t, iv(1), iv(0)), I)
        self.own = lambda t: o(m.nI, t)
        self.nei = lambda t: n(m.nI, t)
        self.row = lambda t: 1 + self.own(t) + self.nei(t)


def segments(m):
    """contract of segmentsFromIntervals (proved in C14; the two consequences by induction below)"""
    def f(X, d, st, this, args):
        c = m.w.c
        a, o = (m.w.at(st, x) if False else x for x in args)
        an, arr, asz, aex = data(c, st, a)
        on, oarr, osz, oex = data(c, st, o)
        pre = [(osz == asz + 1, "one more offset than intervals"), (z3.Select(oarr, iv(0)) == 0, "the first offset is zero"),
               (fa1(asz, lambda t: z3.Select(arr, t) >= 0), "no negative interval")]
        for g, w in pre:
            st = st.event(("pre", simp(z3.Implies(z3.And(*st.pc) if st.pc else z3.BoolVal(True), g)), w))
        new = z3.Const(fresh_name("offsets"), oarr.sort())
        x, y = z3.Ints(fresh_name("x") + " " + fresh_name("y"))
        facts = [z3.Select(new, iv(0)) == 0,
                 z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < asz), z3.Select(new, x + 1) == z3.Select(new, x) + z3.Select(arr, x)), patterns=[z3.Select(new, simp(x + 1))]),
                 z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y <= asz), z3.Select(new, x) + z3.Select(arr, x) <= z3.Select(new, y)), patterns=[z3.MultiPattern(z3.Select(new, x), z3.Select(new, y))])]
        tot = X.loops.total(st, arr, asz)
        r = c.S.fresh(c.T(IX), "total")
        facts.append(r == z3.Select(new, asz))
        if tot is None:
            c.S.taint.add("offsets")
        else:
            for g in tot[1]:
                st = st.event(("pre", simp(z3.Implies(z3.And(*st.pc) if st.pc else z3.BoolVal(True), g)), "every counted cell exists"))
            facts.append(z3.Select(new, asz) == tot[0])
        v = c.X.load(st, o)
        q = v.f[slots(c, v.cls)[0]]
        b = Path(q.root, q.steps[:-1])
        st = X.write(st, b, SeqV(c.X.read(st, b).ety, on, new))
        for g in facts:
            st = st.assume(g)
        return [Out(st, "v", r)]
    return f


def observed(c, w, s, p):
    s0 = s
    g = lambda n: data(c, s, w.get(s, p, SP, n))
    return [g(n) for n in ("rowPtrs", "colIdxs", "ownerOffset", "neighbourOffset", "diagOffset")]


def layout(c, w, m, C, s, p):
    (rn, R_, _, _), (cn, A, csz, _), (on, O, _, _), (nn, N, _, _), (dn, D, _, _) = observed(c, w, s, p)
    nC, nI = m.nC, m.nI
    own, nei = m.owner.arr, m.neighbour.arr
    nnz = nC + 2 * nI
    f, g, t, q = (z3.Int(fresh_name(x)) for x in "fgtq")
    rowof = lambda pos, r: z3.And(R_[r] <= pos, pos < R_[r + 1])
    L = lambda f: R_[nei[f]] + N[f]
    U = lambda f: R_[own[f]] + O[f]
    inI = lambda f: z3.And(0 <= f, f < nI)
    return [
        ("sizes", z3.And(rn == nC + 1, cn == nnz, csz == nnz, on == nI, nn == nI, dn == nC)),
        ("row starts begin at zero", R_[0] == 0),
        ("row starts are the running totals of the row lengths", fa1(nC, lambda t: R_[t + 1] - R_[t] == C.row(t))),
        ("the last row start is the number of entries", R_[nC] == nnz),
        ("the diagonal entry lies in its row", fa1(nC, lambda t: rowof(R_[t] + D[t], t))),
        ("the diagonal entry holds its row", fa1(nC, lambda t: A[R_[t] + D[t]] == t)),
        ("the neighbour's entry lies in the neighbour's row", fa1(nI, lambda f: rowof(L(f), nei[f]))),
        ("the neighbour's entry holds the owner", fa1(nI, lambda f: A[L(f)] == own[f])),
        ("the owner's entry lies in the owner's row", fa1(nI, lambda f: rowof(U(f), own[f]))),
        ("the owner's entry holds the neighbour", fa1(nI, lambda f: A[U(f)] == nei[f])),
        ("no two faces share an entry: neighbours", z3.ForAll([f, g], z3.Implies(z3.And(inI(f), inI(g), f != g), L(f) != L(g)))),
        ("no two faces share an entry: owners", z3.ForAll([f, g], z3.Implies(z3.And(inI(f), inI(g), f != g), U(f) != U(g)))),
        ("no two faces share an entry: owner and neighbour", z3.ForAll([f, g], z3.Implies(z3.And(inI(f), inI(g)), L(f) != U(g)))),
        ("no face shares an entry with a diagonal", z3.ForAll([f, t], z3.Implies(z3.And(inI(f), 0 <= t, t < nC), z3.And(L(f) != R_[t] + D[t], U(f) != R_[t] + D[t])))),
        ("every column index is a cell", fa1(nnz, lambda q: z3.And(0 <= A[q], A[q] < nC))),
    ]


def start(c, k):
    w = World(c, k)
    m = MeshV(w, c.state())
    c.X.nonneg = {m.owner.arr.get_id(), m.neighbour.arr.get_id()}
    c.X.strict_narrow = c.X.exact_iters = True
    C = Counts(c, m)
    st = m.st
    c.X.contracts["NeoFOAM::segmentsFromIntervals"] = segments(m)
    return w, m, C, st


def build(k):
    def f(c):
        w, m, C, st = start(c, k)
        outs = c.new(st, SP, ["const NeoFOAM::UnstructuredMesh &"], [m.path])

        def ret(s, v):
            s, p = (s, v) if isinstance(v, Path) else c.put(s, v, "pattern")
            return layout(c, w, m, C, s, p) + [m.same(s)]
        c.expect("SparsityPattern(mesh) %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def redo(k):
    """update() on an existing pattern, whatever its offsets hold"""
    def f(c):
        w, m, C, st = start(c, k)
        st, p = w.obj(st, SP, "pattern")
        F = lambda n: w.at(st, w.get(st, p, SP, n))
        rp, ci, oo, no, do = (F(n) for n in ("rowPtrs", "colIdxs", "ownerOffset", "neighbourOffset", "diagOffset"))
        for fv, n in ((rp, m.nC + 1), (ci, m.nC + 2 * m.nI), (oo, m.nI), (no, m.nI), (do, m.nC)):
            st = st.assume(fv.n == n)
        st = st.assume(rp.arr[0] == 0).assume(inside(ci.arr, ci.n, m.nC))
        outs = c.call(st, meth(c, SP, "update"), p, [])
        c.expect("update() %s" % EXECS[k], outs, lambda s, _: layout(c, w, m, C, s, p) + [m.same(s)], cover=("v",))
    return f


def offsets(k):
    """what the pattern relies on about segmentsFromIntervals, from its code; monotonicity by induction"""
    def f(c):
        st, a = mkfield(c, c.state(), IX, "len", k)
        t = z3.Int("t0")
        st = st.assume(z3.ForAll([t], z3.And(a.arr[t] >= 0, a.arr[t] <= BIG), patterns=[a.arr[t]]))
        st, o = mkfield(c, st, IX, "off", k, n=z3.Int("off_n"))
        st = st.assume(z3.And(o.n == a.n + 1, o.arr[0] == 0))
        d = free(c, "NeoFOAM::segmentsFromIntervals", lambda f: not c.u.is_dependent(f))
        outs = c.call(st, d, None, [a.path, o.path])

        def ret(s, r):
            n, A, sz, ex = data(c, s, o)
            return [("the first offset is zero", A[0] == 0),
                    ("every offset adds the interval before it", fa1(a.n, lambda t: A[t + 1] == A[t] + a.arr[t])),
                    ("the total is the last offset", c.X.load(s, r) == A[a.n]),
                    ("the intervals are unchanged", unchanged(c, s, a)), ("size", z3.And(sz == o.n, n == o.n))]
        c.expect("segmentsFromIntervals %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def lemmas(c):
    A, L = z3.Function("offset", I, I), z3.Function("length", I, I)
    n, x, y = z3.Ints("n x y")
    rec = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(A(x + 1) == A(x) + L(x), L(x) >= 0)), patterns=[L(x)])
    P = lambda x, y: A(x) + L(x) <= A(y)
    c.lemma("rows do not overlap: induction start", z3.Implies(z3.And(rec, 0 <= x, x < n, L(x) == L(x)), P(x, x + 1)))
    c.lemma("rows do not overlap: induction step", z3.Implies(z3.And(rec, 0 <= x, x < y, y < n, P(x, y), L(y) == L(y), z3.Implies(z3.And(0 <= y, y < n), A(y + 1) == A(y) + L(y)), z3.Implies(z3.And(0 <= y, y < n), L(y) >= 0)), P(x, y + 1)))
    # F(m, c): how many of the first m keys are c;  G(m, n): sum of F(m, c) over c < n
    F, G, K = z3.Function("F", I, I, I), z3.Function("G", I, I, I), z3.Function("K", I, I)
    m, q = z3.Ints("m q")
    one = lambda b: z3.If(b, iv(1), iv(0))
    f0 = lambda q: F(0, q) == 0
    f1 = lambda m, q: F(m + 1, q) == F(m, q) + one(K(m) == q)
    g0 = lambda m: G(m, 0) == 0
    g1 = lambda m, q: G(m, q + 1) == G(m, q) + F(m, q)
    Q = lambda m, q: G(m + 1, q) == G(m, q) + one(z3.And(0 <= K(m), K(m) < q))
    c.lemma("one key adds one to the total: induction start", z3.Implies(z3.And(g0(m), g0(m + 1)), Q(m, iv(0))))
    c.lemma("one key adds one to the total: induction step", z3.Implies(z3.And(q >= 0, Q(m, q), g1(m, q), g1(m + 1, q), f1(m, q)), Q(m, q + 1)))
    c.lemma("no keys, no total: induction start", z3.Implies(g0(iv(0)), G(0, 0) == 0))
    c.lemma("no keys, no total: induction step", z3.Implies(z3.And(q >= 0, G(0, q) == 0, g1(iv(0), q), f0(q)), G(0, q + 1) == 0))
    c.lemma("the totals count the keys: induction step", z3.Implies(z3.And(m >= 0, G(m, n) == m, Q(m, n), 0 <= K(m), K(m) < n), G(m + 1, n) == m + 1))


CONTRACTS = [("lemmas", lemmas)]
for k in range(3):
    CONTRACTS += [("SparsityPattern(mesh) %s" % EXECS[k], build(k)), ("update() %s" % EXECS[k], redo(k)), ("segmentsFromIntervals %s" % EXECS[k], offsets(k))]
