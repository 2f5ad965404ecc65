"""C12: fields own their storage; copies are deep, sizes and views stay consistent."""
from .common import *
from .fields import *
from cxv.units import FIELD
from cxv.kokkos import Freed

UNIT = FIELD
TYPES = ["double", "NeoFOAM::Vector", "unsigned int", "int"]
FT = "NeoFOAM::Field<%s>"


def owned(c, s, v, before, k):
    """the field's storage: not part of anything that existed before, taken from executor k"""
    r = root_of(c, s, v)
    if r is None:
        return [("has storage of its own", z3.BoolVal(False))]
    return [("has storage of its own", z3.BoolVal(r not in before.store)), ("the storage comes from the field's executor", z3.BoolVal(c.X.kokkos.spaces.get(r) == "NeoFOAM::" + EXECS[k])),
            ("the field names the requested executor", execof(c, s, v) == k)]


def built(c, name, st, outs, ety, want, n, k, keep=()):
    e = c.T(ety)

    def ret(s, v):
        m, arr, sz, ex = data(c, s, v)
        g = [("size is the stated one", z3.And(sz == n, m >= n))] if want is None else [("size and elements are the stated ones", elements(c, s, v, want, n, e))]
        return g + owned(c, s, v, st, k) + others(c, s, *keep)
    c.expect(name, outs, ret, cover=("v",))


def ctor(ety, k, how):
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, o = mkfield(c, c.state(), ety, "o", k)
        n = z3.Int("n")
        c.S.fact(z3.And(n >= 0, n <= BIG))
        ex = executor(c, k)
        st, ep = c.put(st, ex, "exec")
        nm = "Field<%s> %s on %s" % (ety, how, EXECS[k])
        if how == "size":
            built(c, nm, st, c.new(st, ft, ["const NeoFOAM::Executor &", "size_t"], [ep, n]), ety, None, n, k, [o])
        elif how == "value":
            v, vc = elemval(c, st, ety, "value")
            built(c, nm, st, c.new(st, ft, ["const NeoFOAM::Executor &", "size_t", ety], [ep, n, v]), ety, lambda t: vc, n, k, [o])
        elif how == "vector":
            vt = c.T("std::vector<%s>" % ety)
            v = c.S.fresh(vt, "in")
            st, p = c.put(st, v, "in")
            built(c, nm, st, c.new(st, ft, ["const NeoFOAM::Executor &", "std::vector<%s>" % ety], [ep, p]), ety, lambda t: comps(c, e, v.arr[t]), v.n, k, [o])
    return f


def ctor_ptr(ety, k, k2):
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, b = mkfield(c, c.state(), ety, "b", k2)
        n = z3.Int("n")
        st, ep = c.put(st, executor(c, k), "exec")
        st = st.assume(z3.And(n >= 0, n <= b.n))
        args = [ep, Path(b.root, (("i", iv(0)),)), n] + [executor(c, k2)]
        built(c, "Field<%s> from memory %s to %s" % (ety, EXECS[k2], EXECS[k]), st, c.new(st, ft, ["const NeoFOAM::Executor &", "const %s *" % ety, "size_t", "NeoFOAM::Executor"], args),
              ety, lambda t: comps(c, e, b.arr[t]), n, k, [b])
    return f


def copies(ety, k, k2, how):
    """field (alternative k) copied by a constructor or to executor k2"""
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k2)
        st, ep = c.put(st, executor(c, k2), "exec")
        nm = "%s<%s> %s to %s" % (how, ety, EXECS[k], EXECS[k2])
        if how == "copy":
            outs = c.new(st, ft, ["const %s &" % ft], [a.path])
        elif how == "copy on":
            outs = c.new(st, ft, ["const NeoFOAM::Executor &", "const %s &" % ft], [ep, a.path])
        elif how == "copyToExecutor":
            outs = c.call(st, meth(c, ft, "copyToExecutor"), a.path, [executor(c, k2)])
        elif how == "copyToHost":
            outs = c.call(st, meth(c, ft, "copyToHost", n=0), a.path, [])
        built(c, nm, st, outs, ety, lambda t: comps(c, e, a.arr[t]), a.n, k2, [a, o])
    return f


def tohost_into(ety, k):
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, d = mkfield(c, st, ety, "d", 0)
        st = st.assume(a.n == d.n)
        outs = c.call(st, meth(c, ft, "copyToHost", n=1), a.path, [d.path])

        def ret(s, _):
            return [("the parsed field has the elements", elements(c, s, d, lambda t: comps(c, e, a.arr[t]), a.n)), ("it does not share the source's storage", z3.BoolVal(root_of(c, s, d.path) != root_of(c, s, a.path))),
                    ("it stays on the host", execof(c, s, d) == 0)] + others(c, s, a)
        c.expect("copyToHost<%s> into a field %s" % (ety, EXECS[k]), outs, ret, cover=("v",))
    return f


def move(ety, k):
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, a = mkfield(c, c.state(), ety, "a", k)
        outs = c.new(st, ft, ["%s &&" % ft], [a.path])

        def ret(s, v):
            src = c.X.load(s, a.path)
            return [("the new field has the size and elements", elements(c, s, v, lambda t: comps(c, e, a.arr[t]), a.n, e)), ("executor kept", execof(c, s, v) == k),
                    ("the source gives its storage up", z3.And(data(c, s, a)[2] == 0, z3.BoolVal(root_of(c, s, a.path) is None or root_of(c, s, a.path) != root_of(c, s, v))))]
        c.expect("move<%s> %s" % (ety, EXECS[k]), outs, ret, cover=("v",))
    return f


def destroy(ety, k):
    def f(c):
        ft = FT % ety
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        cls = c.u.find_class(c.T(ft))
        d = [m for m in cls.get("inner", ()) if m.get("kind") == "CXXDestructorDecl"]
        if len(d) != 1:
            raise Unsupported("destructor")
        outs = c.call(st, c.u.definition(d[0]) or d[0], a.path, [])

        def ret(s, _):
            fr = [x[1] for x in s.log if x[0] == "free"]
            return [("releases exactly its own storage, once", z3.BoolVal(fr == [a.root]))] + others(c, s, o)
        c.expect("~Field<%s> %s" % (ety, EXECS[k]), outs, ret, cover=("v",))
    return f


def resize(ety, k):
    def f(c):
        ft = FT % ety
        e = c.T(ety)
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        n = z3.Int("n")
        c.S.fact(z3.And(n >= 0, n <= BIG))
        outs = c.call(st, meth(c, ft, "resize"), a.path, [n])
        t = z3.Int("t")

        def ret(s, _):
            m, arr, sz, ex = data(c, s, a)
            r = root_of(c, s, a.path)
            return [("has the new size", z3.And(sz == n, m >= n)),
                    ("keeps the common prefix", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n, t < a.n), eqel(c, e, arr[t], a.arr[t])))),
                    ("executor kept", ex.idx == k), ("the storage held before is released or still in use", z3.BoolVal(r == a.root or isinstance(s.store.get(a.root), Freed))), ("storage from its executor, not another field's", z3.BoolVal(r is not None and r != o.root and c.X.kokkos.spaces.get(r) == "NeoFOAM::" + EXECS[k]))] + others(c, s, o)
        c.expect("resize<%s> %s" % (ety, EXECS[k]), outs, ret, cover=("v",))
    return f


def access(ety):
    def f(c):
        ft = FT % ety
        st, a = mkfield(c, c.state(), ety, "a", None)
        one = lambda nm, outs, ret: c.expect("%s<%s>" % (nm, ety), outs, lambda s, v: ret(s, v) + others(c, s, a), cover=("v",))
        ex = lambda s, v: z3.And(*[x == y for x, y in zip(spanof(c, s, v), ("?", 0, a.n))][1:])

        def whole(s, v):
            r, off, n = spanof(c, s, v)
            return [("covers exactly the field's elements", z3.And(z3.BoolVal(r == a.root), off == 0, n == a.n))]
        for cst in (False, True):
            one("view%s" % (" const" if cst else ""), c.call(st, meth(c, ft, "view", n=0, const=cst), a.path, []), whole)
            b, e = z3.Ints("rb re")
            r = St(c.T("std::pair<size_t, size_t>"), {"first": b, "second": e})
            s2 = st.assume(z3.And(0 <= b, b <= e, e <= a.n))

            def part(s, v):
                r, off, n = spanof(c, s, v)
                return [("covers exactly the elements of the range", z3.And(z3.BoolVal(r == a.root), off == b, n == e - b))]
            one("view of a range%s" % (" const" if cst else ""), c.call(s2, meth(c, ft, "view", n=1, const=cst), a.path, [r]), part)
            one("data%s" % (" const" if cst else ""), c.call(st, meth(c, ft, "data", const=cst), a.path, []),
                lambda s, v: [("points to the first element", z3.BoolVal(isinstance(c.X.load(s, v) if isinstance(v, Path) and v.root != a.root else v, Path) and (v if v.root == a.root else c.X.load(s, v)).same(Path(a.root, (("i", iv(0)),)))))])
        one("size", c.call(st, meth(c, ft, "size"), a.path, []), lambda s, v: [("is the number of elements", c.X.load(s, v) == a.n)])
        one("ssize", c.call(st, meth(c, ft, "ssize"), a.path, []), lambda s, v: [("is the number of elements", c.X.load(s, v) == a.n)])
        one("empty", c.call(st, meth(c, ft, "empty"), a.path, []), lambda s, v: [("says whether there are no elements", c.X.boolv(c.X.load(s, v)) == (a.n == 0))])
        one("range", c.call(st, meth(c, ft, "range"), a.path, []), lambda s, v: [("is {0, size}", z3.And(c.X.load(s, v).f["first"] == 0, c.X.load(s, v).f["second"] == a.n))])
        one("exec", c.call(st, meth(c, ft, "exec"), a.path, []), lambda s, v: [("is the field's executor", c.X.load(s, v).idx == a.ex.idx)])
    return f


def tuples(ety, k):
    """spans and copyToHosts of several fields"""
    def f(c):
        e = c.T(ety)
        ft = FT % ety
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, b = mkfield(c, st, ety, "b", k)
        sel = lambda f: len(c.u.params(f)) == 2 and all(str(c.u.ty(p).strip()) == str(c.T(ft)) for p in c.u.params(f)) and not c.u.ty(c.u.params(f)[0]).args[0].const
        sel = lambda f: len(c.u.params(f)) == 2 and all(str(c.u.ty(p).strip()) == str(c.T(ft)) for p in c.u.params(f))
        ds = [f for f in c.u.find_functions("NeoFOAM::spans") if sel(f)]
        if not ds:
            raise Unsupported("spans")
        for i, d in enumerate(ds):
            def ret(s, v):
                v = c.X.load(s, v)
                g = []
                for q, x in zip((a, b), list(v.f.values())):
                    r, off, n = spanof(c, s, x)
                    g.append(("one view per field, in order", z3.And(z3.BoolVal(r == q.root), off == 0, n == q.n)))
                return g + [("as many views as fields", z3.BoolVal(len(v.f) == 2))] + others(c, s, a, b)
            c.expect("spans<%s> %s #%d" % (ety, EXECS[k], i), c.call(st, d, None, [a.path, b.path]), ret, cover=("v",))
        ds = [f for f in c.u.find_functions("NeoFOAM::copyToHosts") if sel(f)]
        if not ds:
            raise Unsupported("copyToHosts")
        for i, d in enumerate(ds):
            def ret(s, v):
                v = c.X.load(s, v)
                g = []
                rs = set()
                for q, x in zip((a, b), list(v.f.values())):
                    g.append(("one copy per field, in order", elements(c, s, x, lambda t: comps(c, e, q.arr[t]), q.n, e)))
                    g += owned(c, s, x, st, 0)
                    rs.add(root_of(c, s, x))
                return g + [("as many copies as fields", z3.BoolVal(len(v.f) == 2 and len(rs) == 2))] + others(c, s, a, b)
            c.expect("copyToHosts<%s> %s #%d" % (ety, EXECS[k], i), c.call(st, d, None, [a.path, b.path]), ret, cover=("v",))
    return f


def execeq(k, k2):
    def f(c):
        st, p = c.put(c.state(), executor(c, k), "x")
        st, q = c.put(st, executor(c, k2), "y")
        for nm, want in (("operator==", k == k2), ("operator!=", k != k2)):
            d = free(c, "NeoFOAM::" + nm, lambda f: all(c.S.kind(c.u.ty(x).strip()) == "var" for x in c.u.params(f)) and len(c.u.params(f)) == 2)
            c.expect("%s %s %s" % (nm, EXECS[k], EXECS[k2]), c.call(st, d, None, [p, q]), lambda s, v: [("executors are equal exactly when of the same kind", c.X.boolv(c.X.load(s, v)) == want)], cover=("v",))
    return f


CONTRACTS = [("executor equality %s %s" % (EXECS[k], EXECS[k2]), execeq(k, k2)) for k in range(3) for k2 in range(3)]
for ety in TYPES:
    CONTRACTS.append(("access<%s>" % ety, access(ety)))
    for k in range(3):
        for how in ("size", "value", "vector"):
            CONTRACTS.append(("Field<%s>(%s) %s" % (ety, how, EXECS[k]), ctor(ety, k, how)))
        CONTRACTS.append(("copy<%s> %s" % (ety, EXECS[k]), copies(ety, k, k, "copy")))
        CONTRACTS.append(("copyToHost<%s> %s" % (ety, EXECS[k]), copies(ety, k, 0, "copyToHost")))
        CONTRACTS.append(("copyToHost into<%s> %s" % (ety, EXECS[k]), tohost_into(ety, k)))
        CONTRACTS.append(("move<%s> %s" % (ety, EXECS[k]), move(ety, k)))
        CONTRACTS.append(("destroy<%s> %s" % (ety, EXECS[k]), destroy(ety, k)))
        CONTRACTS.append(("resize<%s> %s" % (ety, EXECS[k]), resize(ety, k)))
        CONTRACTS.append(("tuples<%s> %s" % (ety, EXECS[k]), tuples(ety, k)))
        for k2 in range(3):
            CONTRACTS.append(("memory<%s> %s %s" % (ety, EXECS[k], EXECS[k2]), ctor_ptr(ety, k, k2)))
            CONTRACTS.append(("copy on<%s> %s %s" % (ety, EXECS[k], EXECS[k2]), copies(ety, k, k2, "copy on")))
            CONTRACTS.append(("copyToExecutor<%s> %s %s" % (ety, EXECS[k], EXECS[k2]), copies(ety, k, k2, "copyToExecutor")))
