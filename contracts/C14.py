"""C14: segmented fields partition their values by prefix-summed interval lengths."""
from .common import *
from .fields import *
from cxv.units import PAR

UNIT = PAR
IX = "unsigned int"
SEG = "NeoFOAM::SegmentedField<double, unsigned int>"
SEGV = "NeoFOAM::SegmentedFieldView<double, unsigned int>"


def fnn(c, name, n=None):
    cs = [f for f in c.u.find_functions("NeoFOAM::" + name) if c.u.params(f) and str(c.u.ty(c.u.params(f)[0]).strip()) == str(c.T("NeoFOAM::Field<%s>" % IX).strip())]
    if len(cs) != 1:
        raise Unsupported("%d functions %s" % (len(cs), name))
    return cs[0]


def intervals(c, st, k):
    st, a = mkfield(c, st, IX, "len", k)
    t = z3.Int("t0")
    # labels are 32 bit: the lengths (and their sum) fit
    st = st.assume(z3.ForAll([t], z3.And(a.arr[t] >= 0, a.arr[t] <= BIG), patterns=[a.arr[t]]))
    return st, a


def scan(k):
    def f(c):
        st, a = intervals(c, c.state(), k)
        st, o = mkfield(c, st, IX, "off", k, n=z3.Int("off_n"))
        st = st.assume(z3.And(o.n == a.n + 1, o.arr[0] == 0))
        S = c.sumf(lambda j: a.arr[j], I)
        outs = c.call(st, fnn(c, "segmentsFromIntervals"), None, [a.path, o.path])

        def ret(s, r):
            return [("offset i is the sum of the first i lengths", elements(c, s, o, lambda t: [z3.If(t == 0, iv(0), S(t))])),
                    ("the total is returned", c.X.load(s, r) == S(a.n)), ("the lengths are unchanged", unchanged(c, s, a))]
        c.expect("segmentsFromIntervals %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def parts(c, s, v):
    """the two fields of a segmented field (values first): found by element type"""
    v = c.X.load(s, v)
    fs = [(n, x) for n, x in v.f.items() if isinstance(x, St) and str(x.cls).startswith("NeoFOAM::Field<")]
    if len(fs) != 2:
        raise Unsupported("representation of the segmented field")
    vals = next(x for n, x in fs if str(x.cls.args[0]) == "double")
    segs = next(x for n, x in fs if str(x.cls.args[0]) == IX)
    return vals, segs


def build(k):
    def f(c):
        st, a = intervals(c, c.state(), k)
        S = c.sumf(lambda j: a.arr[j], I)
        outs = c.new(st, SEG, ["const NeoFOAM::Field<%s> &" % IX], [a.path])

        def ret(s, v):
            vals, segs = parts(c, s, v)
            n, arr, sz, ex = val_data(c, s, segs)
            t = z3.Int(fresh_name("t"))
            return [("boundaries start at zero", arr[0] == 0),
                    ("there is one boundary more than intervals", sz == a.n + 1),
                    ("consecutive boundaries differ by the interval's length", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < a.n), arr[t + 1] == arr[t] + a.arr[t]))),
                    ("boundaries are the running totals", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= a.n), arr[t] == z3.If(t == 0, iv(0), S(t))))),
                    ("exactly the total is stored", val_data(c, s, vals)[2] == S(a.n)),
                    ("both fields live on the intervals' executor", z3.And(ex.idx == k, val_data(c, s, vals)[3].idx == k)),
                    ("the lengths are unchanged", unchanged(c, s, a))]
        c.expect("SegmentedField(intervals) %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def frompair(k):
    def f(c):
        st, a = mkfield(c, c.state(), "double", "vals", k)
        st, o = mkfield(c, st, IX, "segs", k)
        outs = c.new(st, SEG, ["const NeoFOAM::Field<double> &", "const NeoFOAM::Field<%s> &" % IX], [a.path, o.path])

        def ret(s, v):
            vals, segs = parts(c, s, v)
            s1, p1 = c.put(s, vals, "v1")
            s1, p2 = c.put(s1, segs, "v2")
            return [("values copied", elements(c, s1, p1, lambda t: [a.arr[t]], a.n, c.T("double"))), ("segments copied", elements(c, s1, p2, lambda t: [o.arr[t]], o.n, c.T(IX))),
                    ("own storage", z3.BoolVal(root_of(c, s1, vals) not in (a.root,) and root_of(c, s1, segs) not in (o.root,)))] + others(c, s, a, o)
        c.expect("SegmentedField(values, segments) %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def sized(k):
    def f(c):
        st = c.state()
        n, m = z3.Ints("n m")
        c.S.fact(z3.And(n >= 0, n <= BIG, m >= 0, m <= BIG - 1))
        st, e = c.put(st, executor(c, k), "exec")
        outs = c.new(st, SEG, ["const NeoFOAM::Executor &", "unsigned long", "unsigned long"], [e, n, m])

        def ret(s, v):
            vals, segs = parts(c, s, v)
            return [("storage for the values", z3.And(val_data(c, s, vals)[2] == n, val_data(c, s, vals)[0] >= n)), ("one boundary more than segments", z3.And(val_data(c, s, segs)[2] == m + 1, val_data(c, s, segs)[0] >= m + 1)),
                    ("on that executor", z3.And(val_data(c, s, vals)[3].idx == k, val_data(c, s, segs)[3].idx == k))]
        c.expect("SegmentedField(size, segments) %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def mkseg(c, st, k):
    ty = c.T(SEG)
    st, a, va = mkfield(c, st, "double", "vals", k, at=True)
    st, o, vo = mkfield(c, st, IX, "segs", k, at=True, ex=a.ex)
    v = {}
    for n, t in c.S.fields(ty):
        v[n] = va if str(t.args[0]) == "double" else vo
    st, p = c.put(st, St(ty, v), "seg")
    return st, p, a, o


def access(k):
    def f(c):
        st, p, a, o = mkseg(c, c.state(), k)
        st = st.assume(o.n >= 1)
        m = lambda name, n=None, const=None: meth(c, SEG, name, const=const)
        keep = lambda s: [("nothing changes", z3.BoolVal(s.store[p.root] is st.store[p.root] and s.store[a.root] is st.store[a.root] and s.store[o.root] is st.store[o.root]))]
        c.expect("size() %s" % EXECS[k], c.call(st, m("size"), p, []), lambda s, r: [("number of values", r == a.n)] + keep(s), cover=("v",))
        c.expect("numSegments() %s" % EXECS[k], c.call(st, m("numSegments"), p, []), lambda s, r: [("boundaries less one", r == o.n - 1)] + keep(s), cover=("v",))
        c.expect("exec() %s" % EXECS[k], c.call(st, m("exec"), p, []), lambda s, r: [("the fields' executor", c.X.load(s, r).idx == k)] + keep(s), cover=("v",))
        c.expect("values() %s" % EXECS[k], c.call(st, m("values"), p, []), lambda s, r: [("the values", z3.BoolVal(root_of(c, s, r) == a.root))] + keep(s), cover=("v",))
        c.expect("segments() %s" % EXECS[k], c.call(st, m("segments"), p, []), lambda s, r: [("the boundaries", z3.BoolVal(root_of(c, s, r) == o.root))] + keep(s), cover=("v",))

        def whole(s, v, fv):
            r, off, n = spanof(c, s, v)
            return z3.And(z3.BoolVal(r == fv.root), off == 0, n == fv.n)

        def two(s, r):
            r = c.X.load(s, r)
            xs = list(r.f.values())
            return [("views of all values and all boundaries", z3.And(whole(s, xs[0], a), whole(s, xs[1], o)))] + keep(s)
        c.expect("view() %s" % EXECS[k], c.call(st, m("view"), p, []), two, cover=("v",))
        c.expect("spans() %s" % EXECS[k], c.call(st, m("spans"), p, []), two, cover=("v",))
    return f


def segview(c):
    """bounds, range, span and operator[] of an arbitrary partition"""
    st = c.state()
    st, vv, vn, varr = view(c, st, "double", "vals", const=False)
    st, sv, sn, sarr = view(c, st, IX, "segs", const=False)
    fs = c.S.fields(c.T(SEGV))
    v = St(c.T(SEGV), {})
    for n, t in fs:
        v = v.with_(n, (vv if "double" in str(t) else sv).f["$span"])
    st, p = c.put(st, v, "segview")
    i = z3.Int("i")
    t, u = z3.Ints("t0 u0")
    st = st.assume(z3.And(0 <= i, i + 1 < sn))
    st = st.assume(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t <= u, u < sn), z3.And(0 <= sarr[t], sarr[t] <= sarr[u], sarr[u] <= vn)), patterns=[z3.MultiPattern(sarr[t], sarr[u])]))
    lo, hi = sarr[i], sarr[i + 1]
    two = lambda s, r: list(c.X.load(s, r).f.values())
    c.expect("bounds", c.call(st, meth(c, SEGV, "bounds"), p, [i]), lambda s, r: [("start and end of the segment", z3.And(two(s, r)[0] == lo, two(s, r)[1] == hi))], cover=("v",))
    c.expect("range", c.call(st, meth(c, SEGV, "range"), p, [i]), lambda s, r: [("start and length of the segment", z3.And(two(s, r)[0] == lo, two(s, r)[1] == hi - lo))], cover=("v",))
    c.expect("operator[]", c.call(st, meth(c, SEGV, "operator[]"), p, [i]), lambda s, r: [("the boundary", c.X.load(s, r) == lo)], cover=("v",))

    def seg(s, r):
        root, off, n = spanof(c, s, r)
        return [("exactly the elements between the boundaries", z3.And(z3.BoolVal(root == "vals_data"), off == lo, n == hi - lo))]
    c.expect("span", c.call(st, meth(c, SEGV, "span"), p, [i]), seg, cover=("v",))


def partition(c):
    """segments with boundaries S (S(0) = 0, S(i+1) = S(i) + length, length >= 0) are disjoint and cover [0, S(n))"""
    S = z3.Function("bound", I, I)
    ln = z3.Function("len", I, I)
    i, j, n, p = z3.Ints("i j n p")
    ax = [S(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, z3.And(ln(i) >= 0, S(i + 1) == S(i) + ln(i))), patterns=[S(i + 1)])]
    # monotone: induction on j
    mono = lambda j: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= j), S(i) <= S(j)))
    c.lemma("boundaries grow: base", mono(iv(0)), ax)
    c.lemma("boundaries grow: step", mono(j + 1), ax + [j >= 0, mono(j)])
    M = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), S(i) <= S(j)), patterns=[z3.MultiPattern(S(i), S(j))])
    a, b = z3.Ints("a b")
    ins = lambda q, p: z3.And(S(q) <= p, p < S(q + 1))
    c.lemma("segments are disjoint", z3.Implies(z3.And(0 <= a, 0 <= b, ins(a, p), ins(b, p)), a == b), ax + [M, z3.Implies(a < b, S(a + 1) <= S(b)), z3.Implies(b < a, S(b + 1) <= S(a))])
    c.lemma("segments are disjoint: the instances used", z3.And(z3.Implies(z3.And(0 <= a, a < b), S(a + 1) <= S(b))), [M])
    cover = lambda n: z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < S(n)), z3.Exists([i], z3.And(0 <= i, i < n, ins(i, p)))))
    c.lemma("segments cover: base", cover(iv(0)), ax)
    pp = z3.Int("pp")
    w = z3.Int("w")
    c.lemma("segments cover: step", z3.Implies(z3.And(0 <= pp, pp < S(n + 1)), z3.Or(z3.And(0 <= w, w < n + 1, ins(w, pp)), ins(n, pp))), ax + [n >= 0, z3.Implies(z3.And(0 <= pp, pp < S(n)), z3.And(0 <= w, w < n, ins(w, pp)))])


CONTRACTS = []
for k in range(3):
    CONTRACTS += [("segmentsFromIntervals %s" % EXECS[k], scan(k)), ("SegmentedField(intervals) %s" % EXECS[k], build(k)), ("SegmentedField(values, segments) %s" % EXECS[k], frompair(k)),
                  ("SegmentedField(sizes) %s" % EXECS[k], sized(k)), ("accessors %s" % EXECS[k], access(k))]
CONTRACTS += [("SegmentedFieldView", segview), ("partition lemma", partition)]
