"""C20: sparse matrix access and residuals agree with the stored rows; copies and conversions preserve everything."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import LINALG

UNIT = LINALG
IX = "unsigned int"
ETYS = ["double", "NeoFOAM::Vector"]
LA = "NeoFOAM::la::"


def csr(ety):
    return LA + "CSRMatrix<%s, %s>" % (ety, IX)


def csrv(ety, const=False):
    q = "const " if const else ""
    return LA + "CSRMatrixView<%s%s, %s%s>" % (q, ety, q, IX)


def sysy(ety):
    return LA + "LinearSystem<%s, %s>" % (ety, IX)


def rows_ok(st, off, nR, cols, nnz):
    """row starts increase from 0 to nnz and the columns of each row increase"""
    t, u, r = (z3.Int(fresh_name(x)) for x in "tur")
    st = st.assume(z3.And(off[iv(0)] == 0, off[nR] == nnz))
    st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= nR), z3.And(0 <= off[t], off[t] <= nnz)), patterns=[off[t]]))
    st = st.assume(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t <= u, u <= nR), off[t] <= off[u]), patterns=[z3.MultiPattern(off[t], off[u])]))
    st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < nnz), cols[t] >= 0), patterns=[cols[t]]))
    st = st.assume(z3.ForAll([r, t, u], z3.Implies(z3.And(0 <= r, r < nR, off[r] <= t, t < u, u < off[r + 1]), cols[t] < cols[u]), patterns=[z3.MultiPattern(off[r], cols[t], cols[u])]))
    return st


class Mat:
    """a matrix object over three arbitrary fields; which member plays which role is told by its accessors"""

    def __init__(self, c, st, ety, k, valid=True, name="m", nR=None):
        self.c, self.ety, self.k = c, ety, k
        w = World(c, k)
        cls = csr(ety)
        self.cls = cls
        st, self.path = w.obj(st, cls, name)
        g = lambda n: w.at(st, w.get(st, self.path, cls, n, False))
        self.v, self.c_, self.o = g("values"), g("colIdxs"), g("rowPtrs")
        self.nnz = self.v.n
        st = st.assume(self.c_.n == self.nnz)
        if valid:
            self.nR = nR if nR is not None else z3.Int(name + "_rows")
            c.S.fact(z3.And(self.nR >= 0, self.nR <= BIG))
            st = st.assume(self.o.n == self.nR + 1)
            st = rows_ok(st, self.o.arr, self.nR, self.c_.arr, self.nnz)
        self.w, self.st = w, st

    def fields(self):
        return [self.v, self.c_, self.o]

    def same(self, s):
        return ("the matrix is unchanged", z3.And(*[unchanged(self.c, s, f) for f in self.fields()]))


def parts(c, s, v, ety):
    """values, columns and row starts of a matrix value, by its own accessors"""
    s, p = (s, v) if isinstance(v, Path) else c.put(s, v, fresh_name("mat"))
    w = World(c, 0)
    return s, [w.get(s, p, csr(ety), n, False) for n in ("values", "colIdxs", "rowPtrs")]


def equals(c, s, got, fv, k=None, cast=None):
    """the field got refers to holds the values of fv, on executor k"""
    n, arr, sz, ex = data(c, s, got)
    k = fv.ex.idx if k is None else k
    if arr is None:
        return z3.And(sz == fv.n, fv.n == 0, ex.idx == k)
    t = z3.Int(fresh_name("t"))
    return z3.And(sz == fv.n, n >= fv.n, ex.idx == k, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < fv.n), eqel(c, fv.ty.args[0], arr[t], fv.arr[t]))))


def fresh_storage(c, s, got, fvs):
    return z3.BoolVal(root_of(c, s, got) not in [f.root for f in fvs])


def copies(c, s, v, M, ety, k=None):
    """the matrix value v equals M, on executor k, in storage of its own"""
    s, ps = parts(c, s, v, ety)
    out = []
    for nm, p, f in zip(("values", "column indices", "row starts"), ps, M.fields()):
        out.append(("%s are those of the source" % nm, equals(c, s, p, f, k)))
        out.append(("%s in storage of their own" % nm, fresh_storage(c, s, p, M.fields())))
    return out


def entry(ety, const):
    """entry(i, j): the stored value of row i, column j; an absent entry terminates"""
    def f(c):
        st = c.state()
        nR = z3.Int("rows")
        c.S.fact(z3.And(nR >= 0, nR <= BIG))
        st, v, nnz, vA = view(c, st, ety, "val", const=const)
        st, cl, _, cA = view(c, st, IX, "col", n=nnz, const=const)
        st, of, _, oA = view(c, st, IX, "off", n=nR + 1, const=const)
        st = rows_ok(st, oA, nR, cA, nnz)
        i, j = z3.Ints("row column")
        st = st.assume(z3.And(0 <= i, i < nR, j >= 0, j <= BIG))
        cls = csrv(ety, const)
        q = "const " if const else ""
        o = [x for x in c.new(st, cls, ["const NeoFOAM::View<%s%s> &" % (q, ety), "const NeoFOAM::View<%s%s> &" % (q, IX), "const NeoFOAM::View<%s%s> &" % (q, IX)], [v, cl, of])][0]
        st, this = (o.st, o.v) if isinstance(o.v, Path) else c.put(o.st, o.v, "csrview")
        outs = c.call(st, meth(c, cls, "entry", n=2), this, [i, j])
        at = lambda p: z3.And(oA[i] <= p, p < oA[i + 1], cA[p] == j)

        def same(s):
            return z3.And(*[z3.BoolVal(s.store[r] is st.store[r]) for r in ("val_data", "col_data", "off_data")])

        def ret(s, r):
            ok = isinstance(r, Path) and r.root == "val_data" and len(r.steps) == 1 and r.steps[0][0] == "i"
            if not ok:
                return [("a reference into the values", z3.BoolVal(False))]
            return [("the value stored for this row and column", at(r.steps[0][1])), ("nothing changes", same(s))]

        def absent(s):
            t = z3.Int(fresh_name("t"))
            return [("only when the entry is not stored", z3.ForAll([t], z3.Not(at(t))))]
        c.expect("CSRMatrixView<%s%s>::entry(i, j)" % (q, ety), outs, ret, exit=absent, cover=("v", "exit"))
        p = z3.Int("pos")
        outs = c.call(st.assume(z3.And(0 <= p, p < nnz)), meth(c, cls, "entry", n=1), this, [p])
        c.expect("CSRMatrixView<%s%s>::entry(offset)" % (q, ety), outs, lambda s, r: [("the value at the offset", z3.And(z3.BoolVal(isinstance(r, Path) and r.root == "val_data"), r.steps[0][1] == p)), ("nothing changes", same(s))], cover=("v",))
    return f


def ctor(ety, k):
    """construction from three fields, the empty matrix, sizes and accessors, views"""
    def f(c):
        st, v = mkfield(c, c.state(), ety, "val", k)
        st, cl = mkfield(c, st, IX, "col", k)
        st, of = mkfield(c, st, IX, "off", k)
        cls = csr(ety)
        F = "const NeoFOAM::Field<%s> &"
        src = [v, cl, of]

        class M:
            fields = staticmethod(lambda: src)

        def made(s, r):
            return copies(c, s, r, M, ety, k) + others(c, s, *src)
        outs = c.new(st, cls, [F % ety, F % IX, F % IX], [x.path for x in src])
        c.expect("%s(values, columns, rows) %s" % (cls, EXECS[k]), outs, made, cover=("v",))
        ex = executor(c, k)

        def empty(s, r):
            s, ps = parts(c, s, r, ety)
            return [("an empty matrix on the executor", z3.And(*[z3.And(data(c, s, p)[2] == 0, data(c, s, p)[3].idx == k) for p in ps]))]
        c.expect("%s(executor) %s" % (cls, EXECS[k]), c.new(st, cls, ["const NeoFOAM::Executor"], [ex]), empty, cover=("v",))
        m = Mat(c, c.state(), ety, k, valid=False)
        st = m.st
        c.expect("%s::nRows %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "nRows", n=0), m.path, []), lambda s, r: [("one less than the row starts", c.X.load(s, r) == z3.If(m.o.n == 0, iv(0), m.o.n - 1)), m.same(s)], cover=("v",))
        c.expect("%s::nNonZeros %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "nNonZeros", n=0), m.path, []), lambda s, r: [("the number of values", c.X.load(s, r) == m.nnz), m.same(s)], cover=("v",))
        c.expect("%s::exec %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "exec", n=0), m.path, []), lambda s, r: [("the executor of its fields", c.X.load(s, r).idx == k), m.same(s)], cover=("v",))
        for const in (False, True):
            def viewed(s, r):
                r = c.X.load(s, r)
                s, p = c.put(s, r, "mview")
                out = [m.same(s)]
                for nm, fv in (("values", m.v), ("colIdxs", m.c_), ("rowOffs", m.o)):
                    root, off, n = spanof(c, s, r.f[nm])
                    out.append(("%s is the whole %s" % (nm, nm), z3.And(z3.BoolVal(root == fv.root), off == 0, n == fv.n)))
                return out
            c.expect("%s::view%s %s" % (cls, " const" if const else "", EXECS[k]), c.call(st, meth(c, cls, "view", n=0, const=const), m.path, []), viewed, cover=("v",))
        for nm, fv in (("values", m.v), ("colIdxs", m.c_), ("rowPtrs", m.o)):
            c.expect("%s::%s const %s" % (cls, nm, EXECS[k]), c.call(st, meth(c, cls, nm, n=0, const=True), m.path, []),
                     lambda s, r, fv=fv: [("the stored field", equals(c, s, r, fv)), m.same(s)], cover=("v",))
    return f


def copying(ety, k):
    """copies, copies to every executor, conversions"""
    def f(c):
        cls = csr(ety)
        m = Mat(c, c.state(), ety, k, valid=False)
        st = m.st
        c.expect("copy of %s %s" % (cls, EXECS[k]), c.new(st, cls, ["const %s &" % cls], [m.path]), lambda s, r: copies(c, s, r, m, ety, k) + [m.same(s)], cover=("v",))
        for q in range(3):
            c.expect("%s::copyToExecutor %s to %s" % (cls, EXECS[k], EXECS[q]), c.call(st, meth(c, cls, "copyToExecutor", n=1), m.path, [executor(c, q)]),
                     lambda s, r, q=q: copies(c, s, r, m, ety, q) + [m.same(s)], cover=("v",))
        c.expect("%s::copyToHost %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "copyToHost", n=0), m.path, []),
                 lambda s, r: copies(c, s, r, m, ety, 0) + [m.same(s)], cover=("v",))
    return f


def conv(ety, k, out):
    def f(c):
        m = Mat(c, c.state(), ety, k, valid=False)
        o = c.call(m.st, meth(c, csr(ety), "view", n=0, const=True), m.path, [])[0]
        st, vw = o.st, c.X.load(o.st, o.v)
        ds = [d for d in c.u.find_functions(LA + "convert") if par(c, 1, "const " + csrv(ety, True))(d) and str(c.u.types.parse(d["type"]["qualType"].split("(")[0].strip())) in (str(c.T(LA + "CSRMatrix<%s, %s>" % (ety, out))), )]
        if len(ds) != 1:
            ds = [d for d in c.u.find_functions(LA + "convert") if par(c, 1, csrv(ety, True))(d) and str(c.T(LA + "CSRMatrix<%s, %s>" % (ety, out))) == str(c.u.ret(d))]
        if len(ds) != 1:
            raise Unsupported("%d functions convert" % len(ds))
        # labels are 32 bit: every index fits the target type
        for f_ in (m.c_, m.o):
            t = z3.Int(fresh_name("t"))
            st = st.assume(z3.ForAll([t], z3.And(f_.arr[t] >= 0, f_.arr[t] <= BIG), patterns=[f_.arr[t]]))
        st, e = c.put(st, executor(c, k), "exec")
        outs = c.call(st, ds[0], None, [e, vw])

        def ret(s, r):
            s, p = (s, r) if isinstance(r, Path) else c.put(s, r, "conv")
            w = World(c, 0)
            ps = [w.get(s, p, LA + "CSRMatrix<%s, %s>" % (ety, out), n, False) for n in ("values", "colIdxs", "rowPtrs")]
            g = [m.same(s)]
            for nm, q, fv in zip(("values", "column indices", "row starts"), ps, m.fields()):
                g.append(("%s are those of the source" % nm, equals(c, s, q, fv, k)))
                g.append(("%s in storage of their own" % nm, fresh_storage(c, s, q, m.fields())))
            return g
        c.expect("convert<%s, %s> %s" % (ety, out, EXECS[k]), outs, ret, cover=("v",))
    return f


class Sys:
    """a linear system over arbitrary fields"""

    def __init__(self, c, st, ety, k, valid=True):
        self.c = c
        w = World(c, k)
        self.cls = sysy(ety)
        st, self.path = w.obj(st, self.cls, "sys")
        mt = w.get(st, self.path, self.cls, "matrix", False)
        self.mpath = mt
        g = lambda n: w.at(st, w.get(st, mt, csr(ety), n, False))
        self.v, self.c_, self.o = g("values"), g("colIdxs"), g("rowPtrs")
        self.b = w.at(st, w.get(st, self.path, self.cls, "rhs", False))
        self.nnz, self.nR = self.v.n, self.b.n
        st = st.assume(z3.And(self.c_.n == self.nnz, self.o.n == self.nR + 1))
        if valid:
            t, u = z3.Int(fresh_name("t")), z3.Int(fresh_name("u"))
            off = self.o.arr
            st = st.assume(z3.And(off[iv(0)] == 0, off[self.nR] == self.nnz))
            st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= self.nR), z3.And(0 <= off[t], off[t] <= self.nnz)), patterns=[off[t]]))
            st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.nR), off[t] <= off[t + 1]), patterns=[off[t]]))
            st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.nnz), z3.And(0 <= self.c_.arr[t], self.c_.arr[t] < self.nR)), patterns=[self.c_.arr[t]]))
        self.st = st

    def fields(self):
        return [self.v, self.c_, self.o]

    def all(self):
        return [self.v, self.c_, self.o, self.b]

    def same(self, s):
        return ("the system is unchanged", z3.And(*[unchanged(self.c, s, f) for f in self.all()]))


def system(ety, k):
    def f(c):
        cls = sysy(ety)
        S = Sys(c, c.state(), ety, k, valid=False)
        st = S.st

        def copied(s, r, q):
            s, p = (s, r) if isinstance(r, Path) else c.put(s, r, fresh_name("syscopy"))
            w = World(c, 0)
            mt = w.get(s, p, cls, "matrix", False)
            rh = w.get(s, p, cls, "rhs", False)
            return copies(c, s, mt, S, ety, q) + [("the right-hand side is that of the source", equals(c, s, rh, S.b, q)), ("in storage of its own", fresh_storage(c, s, rh, S.all())), S.same(s)]
        c.expect("copy of %s %s" % (cls, EXECS[k]), c.new(st, cls, ["const %s &" % cls], [S.path]), lambda s, r: copied(s, r, k), cover=("v",))
        c.expect("%s(matrix, rhs) %s" % (cls, EXECS[k]), c.new(st, cls, ["const %s &" % csr(ety), "const NeoFOAM::Field<%s> &" % ety], [S.mpath, S.b.path]), lambda s, r: copied(s, r, k), cover=("v",))
        c.expect("%s::copyToHost %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "copyToHost", n=0), S.path, []), lambda s, r: copied(s, r, 0), cover=("v",))
        e = c.T(ety)

        def zeroed(s, _):
            z = lambda fv: elements(c, s, fv, lambda t: [z3.RealVal(0)] * len(comps(c, e, fv.arr[t])))
            return [("every value and every right-hand side is zero", z3.And(z(S.v), z(S.b)))] + others(c, s, S.c_, S.o)
        c.expect("%s::reset %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "reset", n=0), S.path, []), zeroed, cover=("v",))
        for const in (False, True):
            def viewed(s, r):
                r = c.X.load(s, r)
                out = [S.same(s)]
                for nm, x, fv in (("values", r.f["matrix"].f["values"], S.v), ("columns", r.f["matrix"].f["colIdxs"], S.c_), ("row starts", r.f["matrix"].f["rowOffs"], S.o), ("right-hand side", r.f["rhs"], S.b)):
                    root, off, n = spanof(c, s, x)
                    out.append(("the view shows the whole %s" % nm, z3.And(z3.BoolVal(root == fv.root), off == 0, n == fv.n)))
                return out
            c.expect("%s::view%s %s" % (cls, " const" if const else "", EXECS[k]), c.call(st, meth(c, cls, "view", n=0, const=const), S.path, []), viewed, cover=("v",))
        c.expect("%s::exec %s" % (cls, EXECS[k]), c.call(st, meth(c, cls, "exec", n=0), S.path, []), lambda s, r: [("the executor of the matrix", c.X.load(s, r).idx == k), S.same(s)], cover=("v",))
    return f


def residual(k):
    def f(c):
        S = Sys(c, c.state(), "double", k)
        st, x = mkfield(c, S.st, "double", "x", k, n=S.nR)
        d = [g for g in c.u.find_functions(LA + "spmv")]
        if len(d) != 1:
            raise Unsupported("%d functions spmv" % len(d))
        outs = c.call(st, d[0], None, [S.path, x.path])

        def ret(s, r):
            n, arr, sz, ex = data(c, s, r) if isinstance(r, Path) else val_data(c, s, c.X.load(s, r))
            t = z3.Int(fresh_name("t"))
            row = c.sumt(lambda j, t: S.v.arr[S.o.arr[t] + j] * x.arr[S.c_.arr[S.o.arr[t] + j]], R)
            g = [("one residual per row on the system's executor", z3.And(sz == S.nR, ex.idx == k)),
                 ("every row is the sum of its stored entries times the unknowns of their columns, less the right-hand side",
                  z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < S.nR), arr[t] == row(S.o.arr[t + 1] - S.o.arr[t], t) - S.b.arr[t])))]
            return g + [S.same(s)] + others(c, s, x)
        c.expect("spmv %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def empty(ety, k):
    """a zero system with the given pattern"""
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        SP = CC + "SparsityPattern"
        st, sp = w.obj(M.st, SP, "pattern")
        g = lambda n: w.at(st, w.get(st, sp, SP, n))
        rp, ci, dg = g("rowPtrs"), g("colIdxs"), g("diagOffset")
        st = st.assume(z3.And(dg.n == M.nC, rp.n == M.nC + 1))
        d = [q for q in c.u.find_functions(LA + "createEmptyLinearSystem") if str(c.u.types.parse(q["type"]["qualType"].split("(")[0].strip())) == str(c.T(sysy(ety)).strip())]
        if len(d) != 1:
            raise Unsupported("%d functions createEmptyLinearSystem" % len(d))
        outs = c.call(st, d[0], None, [sp])
        e = c.T(ety)

        def ret(s, r):
            s, p = (s, r) if isinstance(r, Path) else c.put(s, r, "emptysys")
            ww = World(c, 0)
            mt = ww.get(s, p, sysy(ety), "matrix", False)
            rh = ww.get(s, p, sysy(ety), "rhs", False)
            s, ps = parts(c, s, mt, ety)

            def zeros(q, n):
                m, arr, sz, ex = data(c, s, q)
                t = z3.Int(fresh_name("t"))
                return z3.And(sz == n, ex.idx == k, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(*[x == 0 for x in comps(c, e, arr[t])]))))
            return [("one zero value per stored entry", zeros(ps[0], ci.n)), ("the pattern's columns", equals(c, s, ps[1], ci)), ("the pattern's row starts", equals(c, s, ps[2], rp)),
                    ("one zero right-hand side per cell", zeros(rh, M.nC)), ("in storage of its own", z3.And(*[fresh_storage(c, s, q, [ci, rp]) for q in ps]))] + others(c, s, rp, ci, dg)
        c.expect("createEmptyLinearSystem<%s> %s" % (ety, EXECS[k]), outs, ret, cover=("v",))
    return f


CONTRACTS = []
for ety in ETYS:
    for const in (False, True):
        CONTRACTS.append(("CSR entry %s%s" % ("const " if const else "", ety), entry(ety, const)))
    for k in range(3):
        CONTRACTS += [("CSR construction and views %s %s" % (ety, EXECS[k]), ctor(ety, k)), ("CSR copies %s %s" % (ety, EXECS[k]), copying(ety, k)),
                      ("linear system %s %s" % (ety, EXECS[k]), system(ety, k)), ("empty system %s %s" % (ety, EXECS[k]), empty(ety, k))]
        for out in ("int", IX):
            CONTRACTS.append(("convert %s %s %s" % (ety, out, EXECS[k]), conv(ety, k, out)))
for k in range(3):
    CONTRACTS.append(("spmv %s" % EXECS[k], residual(k)))
