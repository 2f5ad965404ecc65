"""C13: parallel loops visit every index of the range exactly once, reductions and scans combine exactly those."""
from .common import *
from .fields import *
from cxv.units import PAR
from cxv import sums

UNIT = PAR


def buf(c, st, ety, name, n):
    """a block of n elements of foreign storage and a pointer to it"""
    e = c.T(ety)
    arr = z3.Const("%s_arr" % name, z3.ArraySort(I, c.S.sort(e)))
    st = st.copy()
    st.store[name + "_buf"] = SeqV(e, n, arr)
    return st, Path(name + "_buf", (("i", iv(0)),)), arr


def inst(c, name, *tys, n=None):
    """the instantiation of a NeoFOAM function template whose parameters have exactly these types (None: any)"""
    want = [str(c.T(t).strip()) if t else None for t in tys]
    cs = []
    for f in c.u.find_functions("NeoFOAM::" + name):
        ps = [str(c.u.ty(p).strip()) for p in c.u.params(f)]
        if len(ps) >= len(want) and all(w is None or w == p for w, p in zip(want, ps)) and (n is None or len(ps) == n):
            cs.append(f)
    if len(cs) != 1:
        raise Unsupported("%d instances of %s(%s)" % (len(cs), name, ", ".join(map(str, tys))))
    return cs[0]


PAIR = "std::pair<size_t, size_t>"


def rng(c):
    b, e = z3.Ints("rb re")
    c.S.fact(z3.And(b >= 0, e >= 0, b <= BIG, e <= BIG))
    return b, e, St(c.T(PAIR), {"first": b, "second": e})


def arr_is(c, s, root, old, n, f):
    """block root: elements t are f(t)"""
    v = s.store[root]
    t = z3.Int(fresh_name("t"))
    return z3.And(v.n == n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), f(t, z3.Select(v.arr, t)))))


def args_of(c, d, st, vs):
    """append the declared default arguments"""
    ps = c.u.params(d)
    vs = list(vs)
    for i in range(len(vs), len(ps)):
        st, v = c.X.default_arg(st, d, i)
        vs.append(v)
    return st, vs


def loop(k):
    """parallelFor over a range: every index of [b, e) once, no other index"""
    def f(c):
        n = z3.Int("n")
        st = c.state()
        b, e, r = rng(c)
        c.S.fact(z3.And(n >= 0, n <= BIG))
        st = st.assume(z3.And(e <= n, b <= n))
        st, pc, cnt = buf(c, st, "int", "cnt", n)
        st, po, out = buf(c, st, "double", "out", n)
        st, pi, inp = buf(c, st, "double", "in", n)
        t = z3.Int("t0")
        st = st.assume(z3.ForAll([t], z3.And(cnt[t] >= 0, cnt[t] < 1000)))
        kern = St(c.T("NeoFOAM::cxv::Mark"), {"cnt": pc, "out": po, "in": pi})
        d = inst(c, "parallelFor", "NeoFOAM::Executor", PAIR, "NeoFOAM::cxv::Mark")
        st, vs = args_of(c, d, st, [executor(c, k), r, kern])
        outs = c.call(st, d, None, vs)
        ins = lambda t: z3.And(b <= t, t < e)

        def ret(s, _):
            return [("the kernel runs once for every index of the range and for no other", arr_is(c, s, "cnt_buf", cnt, n, lambda t, x: x == cnt[t] + z3.If(ins(t), 1, 0))),
                    ("with that index", arr_is(c, s, "out_buf", out, n, lambda t, x: x == z3.If(ins(t), inp[t], out[t]))),
                    ("nothing else changes", arr_is(c, s, "in_buf", inp, n, lambda t, x: x == inp[t]))]
        c.expect("parallelFor range %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def loopfield(ety, k):
    """parallelFor over a field: element i becomes kernel(i)"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        st, p, tab = buf(c, st, ety, "tab", a.n)
        kern = St(c.T("NeoFOAM::cxv::Inner<%s>" % ety), {"table": p})
        d = inst(c, "parallelFor", "NeoFOAM::Field<%s>" % ety, "NeoFOAM::cxv::Inner<%s>" % ety)
        st, vs = args_of(c, d, st, [a.path, kern])
        outs = c.call(st, d, None, vs)
        e = c.T(ety)
        c.expect("parallelFor field<%s> %s" % (ety, EXECS[k]), outs, lambda s, _: [("every element takes the kernel's value for its index", elements(c, s, a, lambda t: comps(c, e, tab[t])))] + others(c, s, o), cover=("v",))
    return f


def reduce(kind, how, k, over):
    """parallelReduce: the identity combined with the contribution of every index of the range, once each"""
    def f(c):
        st = c.state()
        ety = "int" if kind == "intsum" else "double"
        kt = {"sum": "Acc", "intsum": "AccI", "max": "Top", "min": "Low"}[kind]
        vt = {"plain": ety, "reducer": "Kokkos::%s<double>" % {"sum": "Sum", "max": "Max", "min": "Min"}.get(kind)}[how]
        if over == "range":
            n = z3.Int("n")
            c.S.fact(z3.And(n >= 0, n <= BIG))
            b, e, r = rng(c)
            st = st.assume(z3.And(e <= n, b <= n))
        else:
            st, fl = mkfield(c, st, "double", "a", k)
            n, b, e = fl.n, iv(0), fl.n
        st, pi, inp = buf(c, st, ety, "in", n)
        old = c.S.fresh(c.T(ety), "old")
        st, pv = c.put(st, old, "result")
        kern = St(c.T("NeoFOAM::cxv::" + kt), {"in": pi})
        target = pv
        if how == "reducer":
            o = c.X.kokkos.construct(st, c.T(vt), [pv], None)[0]
            st, target = c.put(o.st, o.v, "reducer")
        if over == "range":
            d = inst(c, "parallelReduce", "NeoFOAM::Executor", PAIR, "NeoFOAM::cxv::" + kt, vt)
            outs = c.call(st, d, None, [executor(c, k), r, kern, target])
        else:
            d = inst(c, "parallelReduce", "NeoFOAM::Field<double>", "NeoFOAM::cxv::" + kt, vt)
            outs = c.call(st, d, None, [fl.path, kern, target])
        N = z3.If(b <= e, e - b, iv(0))

        def ret(s, _):
            v = c.X.read(s, pv)
            g = []
            if kind in ("sum", "intsum"):
                g.append(("the result is the sum of the contributions of the range", v == c.sum(lambda j: inp[b + j], N, R if kind == "sum" else I)))
            else:
                ident = c.X.std.limit("lowest" if kind == "max" else "max", c.T("double"))
                t = z3.Int(fresh_name("t"))
                ge = (lambda x, y: x >= y) if kind == "max" else (lambda x, y: x <= y)
                g.append(("no contribution of the range exceeds the result", z3.ForAll([t], z3.Implies(z3.And(b <= t, t < e), ge(v, inp[t])))))
                g.append(("the result is not beyond the identity", ge(v, ident)))
                u = z3.Int(fresh_name("u"))
                g.append(("the result is the identity or one of the contributions", z3.Or(v == ident, z3.Exists([u], z3.And(b <= u, u < e, v == inp[u])))))
            g.append(("the input is unchanged", arr_is(c, s, "in_buf", inp, n, lambda t, x: x == inp[t])))
            return g + (others(c, s, fl) if over == "field" else [])
        c.expect("parallelReduce %s %s over a %s %s" % (kind, how, over, EXECS[k]), outs, ret, cover=("v",))
    return f


def scan(kt, total, k):
    """parallelScan: index i sees the contributions of exactly the indices before it"""
    def f(c):
        st = c.state()
        n = z3.Int("n")
        c.S.fact(z3.And(n >= 0, n <= BIG))
        b, e, r = rng(c)
        st = st.assume(z3.And(e <= n, b <= n))
        st, pi, inp = buf(c, st, "double", "in", n)
        st, po, out = buf(c, st, "double", "out", n)
        kern = St(c.T("NeoFOAM::cxv::" + kt), {"in": pi, "out": po})
        vs = [executor(c, k), r, kern]
        if total:
            st, pv = c.put(st, c.S.fresh(c.T("double"), "old"), "total")
            vs.append(pv)
        d = inst(c, "parallelScan", "NeoFOAM::Executor", PAIR, "NeoFOAM::cxv::" + kt, n=len(vs))
        outs = c.call(st, d, None, vs)
        N = z3.If(b <= e, e - b, iv(0))
        S = c.sumf(lambda j: inp[b + j], R)
        ins = lambda t: z3.And(b <= t, t < e)

        def ret(s, _):
            g = [("every index gets the combination of exactly the indices up to it", arr_is(c, s, "out_buf", out, n, lambda t, x: x == z3.If(ins(t), S(t - b + (1 if kt == "Pre" else 0)), out[t])))]
            if total:
                g.append(("the total combines every index of the range", c.X.read(s, pv) == S(N)))
            return g + [("the input is unchanged", arr_is(c, s, "in_buf", inp, n, lambda t, x: x == inp[t]))]
        c.expect("parallelScan %s%s %s" % (kt, " with total" if total else "", EXECS[k]), outs, ret, cover=("v",))
    return f


CONTRACTS = []
for k in range(3):
    CONTRACTS.append(("parallelFor(range) %s" % EXECS[k], loop(k)))
    for ety in ("double", "NeoFOAM::Vector"):
        CONTRACTS.append(("parallelFor(field<%s>) %s" % (ety, EXECS[k]), loopfield(ety, k)))
    for over in ("range", "field"):
        for kind, how in (("sum", "plain"), ("sum", "reducer"), ("max", "reducer"), ("min", "reducer")) + ((("intsum", "plain"),) if over == "range" else ()):
            CONTRACTS.append(("parallelReduce(%s) %s %s %s" % (over, kind, how, EXECS[k]), reduce(kind, how, k, over)))
    for kt, total in (("Pre", False), ("Pre", True), ("PreX", True)):
        CONTRACTS.append(("parallelScan(%s)%s %s" % (kt, " total" if total else "", EXECS[k]), scan(kt, total, k)))
