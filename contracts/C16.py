"""C16: implicit assembly adds exactly the discretisation's coefficients to matrix and right-hand side, and changes nothing else."""
from .common import *
from .fields import *
from .mesh import *
from . import C15 as X15
from .C20 import csr, sysy, IX
from cxv.units import FV_IMPL

UNIT = FV_IMPL
SP = CC + "SparsityPattern"
ETYS = ["double", "NeoFOAM::Vector"]


class Pattern:
    """the sparsity pattern of the mesh with the guarantees C19 proves for it: where the three offsets of a face (its entry in the
    neighbour's row, in the owner's row) and of a cell (its diagonal entry) point to"""

    def __init__(self, w, st, M, path=None, name="pattern"):
        c = w.c
        if path is None:
            st, path = w.obj(st, SP, name)
        self.path = path
        g = lambda n: w.at(st, w.get(st, path, SP, n))
        self.rows, self.cols, self.diag, self.own, self.nei = g("rowPtrs"), g("colIdxs"), g("diagOffset"), g("ownerOffset"), g("neighbourOffset")
        for f, n in ((self.rows, M.nC + 1), (self.diag, M.nC), (self.own, M.nI), (self.nei, M.nI)):
            st = st.assume(f.n == n)
        self.w, self.M, self.st = w, M, st

    def fields(self):
        return [self.rows, self.cols, self.diag, self.own, self.nei]

    def locate(self, st, rows):
        """the entries the offsets locate in a matrix with these row starts; where two offsets point to different places"""
        M = self.M
        self.locN = lambda j: rows.arr[M.neighbour.arr[j]] + self.nei.arr[j]
        self.locO = lambda j: rows.arr[M.owner.arr[j]] + self.own.arr[j]
        self.locD = lambda t: rows.arr[t] + self.diag.arr[t]
        return st

    def valid(self, st, rows, nnz):
        M = self.M
        i, j, t, u = (z3.Int(fresh_name(x)) for x in "ijtu")
        st = self.locate(st, rows)
        face = lambda x: z3.And(0 <= x, x < M.nI)
        cell = lambda x: z3.And(0 <= x, x < M.nC)
        st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= M.nC), z3.And(0 <= rows.arr[t], rows.arr[t] <= nnz)), patterns=[rows.arr[t]]))
        for f in (self.diag, self.own, self.nei):
            st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < f.n), z3.And(0 <= f.arr[t], f.arr[t] <= 255)), patterns=[f.arr[t]]))
        N, O, D = self.nei.arr, self.own.arr, self.diag.arr
        inn = lambda p: z3.And(0 <= p, p < nnz)
        st = st.assume(z3.ForAll([j], z3.Implies(face(j), inn(self.locN(j))), patterns=[N[j]]))
        st = st.assume(z3.ForAll([j], z3.Implies(face(j), inn(self.locO(j))), patterns=[O[j]]))
        st = st.assume(z3.ForAll([t], z3.Implies(cell(t), inn(self.locD(t))), patterns=[D[t]]))
        for f, a in ((self.locN, N), (self.locO, O)):
            st = st.assume(z3.ForAll([i, j], z3.Implies(z3.And(face(i), face(j), i != j), f(i) != f(j)), patterns=[z3.MultiPattern(a[i], a[j])]))
        st = st.assume(z3.ForAll([t, u], z3.Implies(z3.And(cell(t), cell(u), t != u), self.locD(t) != self.locD(u)), patterns=[z3.MultiPattern(D[t], D[u])]))
        st = st.assume(z3.ForAll([i, j], z3.Implies(z3.And(face(i), face(j)), self.locN(i) != self.locO(j)), patterns=[z3.MultiPattern(N[i], O[j])]))
        st = st.assume(z3.ForAll([i, t], z3.Implies(z3.And(face(i), cell(t)), self.locN(i) != self.locD(t)), patterns=[z3.MultiPattern(N[i], D[t])]))
        st = st.assume(z3.ForAll([i, t], z3.Implies(z3.And(face(i), cell(t)), self.locO(i) != self.locD(t)), patterns=[z3.MultiPattern(O[i], D[t])]))
        return st


class System:
    """an arbitrary linear system with one row per cell"""

    def __init__(self, w, st, ety, M):
        c = w.c
        self.cls = sysy(ety)
        st, self.path = w.obj(st, self.cls, "sys")
        mt = w.get(st, self.path, self.cls, "matrix", False)
        g = lambda n: w.at(st, w.get(st, mt, csr(ety), n, False))
        self.v, self.c_, self.o = g("values"), g("colIdxs"), g("rowPtrs")
        self.b = w.at(st, w.get(st, self.path, self.cls, "rhs", False))
        self.nnz = self.v.n
        st = st.assume(z3.And(self.c_.n == self.nnz, self.o.n == M.nC + 1, self.b.n == M.nC))
        self.c, self.st, self.ety, self.M = c, st, ety, M


def grown(c, s, fv, n, ety, adds, what):
    """every component of every element grew by the sums of `adds` (functions of element index and component)"""
    e = c.T(ety)
    m, arr, sz, ex = data(c, s, fv)
    t = z3.Int(fresh_name("p"))
    out = []
    for q in range(len(comps(c, e, fv.arr[iv(0)]))):
        want = comps(c, e, fv.arr[t])[q]
        for a in adds:
            want = want + a(t, q)
        out.append(("%s, component %d: grows by exactly the coefficients located there" % (what, q) if len(comps(c, e, fv.arr[iv(0)])) > 1 else "%s: grows by exactly the coefficients located there" % what,
                    z3.And(sz == n, m == n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), comps(c, e, arr[t])[q] == want)))))
    return out


def face_sum(c, loc, val, n):
    """sum over the first n indices located at p"""
    f = {}

    def g(p, q):
        if q not in f:
            f[q] = c.sumt(lambda j, p: z3.If(loc(j) == p, val(j, q), 0), R)
        return f[q](n, p)
    return g


def setting(c, ety, k, kind):
    w = World(c, k)
    M = MeshV(w, c.state())
    phi = GeoV(w, M.st, "VolumeField", ety, "phi", M)
    flux = GeoV(w, phi.st, "SurfaceField", "double", "flux", M)
    P = Pattern(w, flux.st, M)
    S = System(w, P.st, ety, M)
    st = P.valid(S.st, S.o, S.nnz)
    return w, M, phi, flux, P, S, st


def unchanged_rest(c, s, M, phi, flux, P, S):
    return [M.same(s), ("the operands are unchanged", z3.And(phi.same(s), flux.same(s))), ("the pattern is unchanged", z3.And(*[unchanged(c, s, f) for f in P.fields()])),
            ("columns and row starts are unchanged", z3.And(unchanged(c, s, S.c_), unchanged(c, s, S.o)))]


def div_terms(c, M, phi, flux, P, S, sc):
    f = flux.int.arr
    own, nei, fc = (lambda j: M.owner.arr[j]), (lambda j: M.neighbour.arr[j]), (lambda j: M.faceCells.arr[j])
    up = lambda j: z3.If(f[j] >= 0, f[j], z3.RealVal(0))
    dn = lambda j: z3.If(f[j] >= 0, z3.RealVal(0), f[j])
    vf, rv = phi.frac.arr, phi.ref.arr
    e = c.T(S.ety)
    mat = [face_sum(c, P.locN, lambda j, q: -up(j) * sc(nei(j)), M.nI),
           face_sum(c, lambda j: P.locD(own(j)), lambda j, q: up(j) * sc(own(j)), M.nI),
           face_sum(c, P.locO, lambda j, q: dn(j) * sc(own(j)), M.nI),
           face_sum(c, lambda j: P.locD(nei(j)), lambda j, q: -dn(j) * sc(nei(j)), M.nI),
           face_sum(c, lambda j: P.locD(fc(j)), lambda j, q: f[M.nI + j] * sc(fc(j)) * (1 - vf[j]), M.nB)]
    rhs = [face_sum(c, fc, lambda j, q: -(f[M.nI + j] * sc(fc(j)) * (vf[j] * comps(c, e, rv[j])[q])), M.nB)]
    return mat, rhs


def lap_terms(c, M, phi, flux, P, S, sc, dc):
    f = flux.int.arr
    own, nei, fc = (lambda j: M.owner.arr[j]), (lambda j: M.neighbour.arr[j]), (lambda j: M.faceCells.arr[j])
    fl = lambda j: dc[j] * f[j] * M.magAreas.arr[j]
    vf, rv, rg = phi.frac.arr, phi.ref.arr, phi.grad.arr
    e = c.T(S.ety)
    bf = lambda j: f[M.nI + j] * M.magAreas.arr[M.nI + j]
    mat = [face_sum(c, P.locN, lambda j, q: fl(j) * sc(nei(j)), M.nI),
           face_sum(c, lambda j: P.locD(own(j)), lambda j, q: -fl(j) * sc(own(j)), M.nI),
           face_sum(c, P.locO, lambda j, q: fl(j) * sc(own(j)), M.nI),
           face_sum(c, lambda j: P.locD(nei(j)), lambda j, q: -fl(j) * sc(nei(j)), M.nI),
           face_sum(c, lambda j: P.locD(fc(j)), lambda j, q: -(bf(j) * sc(fc(j)) * vf[j] * dc[M.nI + j]), M.nB)]
    rhs = [face_sum(c, fc, lambda j, q: -(bf(j) * sc(fc(j)) * (vf[j] * dc[M.nI + j] * comps(c, e, rv[j])[q] + (1 - vf[j]) * comps(c, e, rg[j])[q])), M.nB)]
    return mat, rhs


def div(ety, k, kind):
    def f(c):
        w, M, phi, flux, P, S, st = setting(c, ety, k, kind)
        st, op, sc = X15.coeff(c, st, kind, k, M.nC)
        d = free(c, CC + "computeDivImp", par(c, 0, S.cls))
        outs = c.call(st, d, None, [S.path, flux.path, phi.path, op, P.path])
        mat, rhs = div_terms(c, M, phi, flux, P, S, sc)

        def ret(s, _):
            return grown(c, s, S.v, S.nnz, ety, mat, "every matrix entry") + grown(c, s, S.b, M.nC, ety, rhs, "every right-hand side") + unchanged_rest(c, s, M, phi, flux, P, S)
        c.expect("computeDivImp<%s> scaled by a %s, %s" % (ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def deltas(c, w, M, st, ety):
    """the face-normal gradient scheme: its distance coefficients are a fixed face field (each scheme is proved against its own
    formula in C31)"""
    g = GeoV(w, st, "SurfaceField", "double", "deltas", M)
    c.X.abstract_impl[CC + "FaceNormalGradientFactory::deltaCoeffs"] = lambda X, md, s, obj, args: [Out(s, "v", g.path)]
    st, strat = w.obj(g.st, CC + "FaceNormalGradient<%s>" % ety, "strategy")
    return st, strat, g


def lap(ety, k, kind):
    def f(c):
        w, M, phi, flux, P, S, st = setting(c, ety, k, kind)
        st, strat, dc = deltas(c, w, M, st, ety)
        st, op, sc = X15.coeff(c, st, kind, k, M.nC)
        d = free(c, CC + "computeLaplacianImpl", par(c, 0, S.cls))
        outs = c.call(st, d, None, [S.path, flux.path, phi.path, op, P.path, strat])
        mat, rhs = lap_terms(c, M, phi, flux, P, S, sc, dc.int.arr)

        def ret(s, _):
            return grown(c, s, S.v, S.nnz, ety, mat, "every matrix entry") + grown(c, s, S.b, M.nC, ety, rhs, "every right-hand side") + unchanged_rest(c, s, M, phi, flux, P, S) + \
                [("the distance coefficients are unchanged", dc.same(s))]
        c.expect("computeLaplacianImpl<%s> scaled by a %s, %s" % (ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def wrapper(cls, which, ety, k):
    """the operator classes hand the system, the operands, their pattern and scheme to the assembly proved above"""
    def f(c):
        w, M, phi, flux, P, S, st = setting(c, ety, k, "number")
        w.shared[str(c.T(SP))] = P.path
        st, this = w.obj(st, CC + cls + "<%s>" % ety, "op")
        st, op, sc = X15.coeff(c, st, "number", k, M.nC)
        calls = []

        def call(X, d, s, this_, args):
            calls.append((s, [X.load(s, a) if "Coeff" in p["type"]["qualType"] else a for a, p in zip(args, c.u.params(d))]))
            return [Out(s, "v", None)]
        c.X.contracts[CC + ("computeDivImp" if which == "div" else "computeLaplacianImpl")] = call
        d = meth(c, CC + cls + "<%s>" % ety, which, 0, S.cls)
        outs = c.call(st, d, this, [S.path, flux.path, phi.path, op])

        def ret(s, _):
            ok = len(calls) == 1
            a = calls[0][1] if ok else []
            has = lambda p: any(isinstance(x, Path) and x.same(p) for x in a)
            g = [("assembled once into this system, from these operands, with this pattern", z3.BoolVal(ok and has(S.path) and has(flux.path) and has(phi.path) and has(P.path))),
                 ("scaled by the given coefficient", X15.eqv(c, [x for x in a if isinstance(x, St) and "Coeff" in str(x.cls)][0], op) if ok else z3.BoolVal(False))]
            if which == "laplacian":
                g.append(("with the scheme it was built with", z3.BoolVal(any(isinstance(x, Path) and x.root == "op" for x in a))))
            return g + [("the system is left to the assembly", z3.And(*[unchanged(c, s, x) for x in (S.v, S.c_, S.o, S.b)]))] + unchanged_rest(c, s, M, phi, flux, P, S)
        c.expect("%s<%s>::%s into a linear system, %s" % (cls, ety, which, EXECS[k]), outs, ret, cover=("v",))
    return f


def setcoeff(c, w, st, this, cls, k, kind, nC):
    """give the operator an arbitrary coefficient"""
    st, op, sc = X15.coeff(c, st, kind, k, nC)
    at = w.get(st, this, cls, "getCoefficient", False)
    r = c.X.write(st, at, op)
    return (r if r is not None else st), op, sc


def diagonal(which, ety, k, kind):
    """the cell-wise terms: one contribution to the diagonal entry of every cell"""
    def f(c):
        w, M, phi, flux, P, S, st = setting(c, ety, k, kind)
        w.shared[str(c.T(SP))] = P.path
        co = GeoV(w, st, "VolumeField", "double", "coefficients", M)
        st = co.st
        w.refs.append(("VolumeField<double>", co.path if which == "SourceTerm" else phi.path))
        w.refs.append(("VolumeField", phi.path))
        cls = CC + "%s<%s>" % (which, ety)
        e = c.T(ety)
        if which == "SourceTerm" and ety == "double":
            # field and coefficient are both scalar fields: reference members bound by the constructor
            st, this = built(c, w, st, cls, co, phi)
        else:
            st, this = w.obj(st, cls, "op")
        st, op, sc = setcoeff(c, w, st, this, cls, k, kind, M.nC)
        vol = M.vol.arr
        same = lambda s: [("the coefficients are unchanged", co.same(s))]
        if which == "SourceTerm":
            outs = c.call(st, meth(c, cls, "implicitOperation", n=1), this, [S.path])
            mat = lambda t, q: sc(t) * co.int.arr[t] * vol[t]
            rhs = []
        else:
            old = GeoV(w, st, "VolumeField", ety, "old", M)
            st = old.st
            asked = oldlevel(c, phi, old)
            dt = z3.Real("dt")
            st = st.assume(dt > 0)
            outs = c.call(st, meth(c, cls, "implicitOperation", n=3), this, [S.path, z3.Real("time"), dt])
            mat = lambda t, q: sc(t) * vol[t] / dt
            rhs = [lambda t, q: sc(t) * vol[t] / dt * comps(c, e, old.int.arr[t])[q]]
            same = lambda s: [("the old-time field is unchanged", old.same(s)), ("the old level of this field", z3.BoolVal(asked == [True]))]

        def ret(s, _):
            return diag_grown(c, s, P, M, S, ety, mat) + grown(c, s, S.b, M.nC, ety, rhs, "every right-hand side") + unchanged_rest(c, s, M, phi, flux, P, S) + same(s)
        c.expect("%s<%s>::implicitOperation scaled by a %s, %s" % (which, ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def built(c, w, st, cls, co, phi):
    """the operator as its own constructor binds it"""
    k = [x for x in c.X.ctors(c.u.find_class(c.T(cls))) if len(c.u.params(x)) == 3]
    if len(k) != 1:
        raise Unsupported("constructors of %s" % cls)
    c.X.contracts[SP + "::readOrCreate"] = lambda X, d, s, this, args: [Out(s, "v", w.shared[str(c.T(SP))])]
    o = c.X.construct(st, c.T(cls), k[0]["type"]["qualType"], [iv(0), co.path, phi.path])
    if len(o) != 1 or o[0].k != "v":
        raise Unsupported("construction of %s" % cls)
    return (o[0].st, o[0].v) if isinstance(o[0].v, Path) else c.put(o[0].st, o[0].v, "op")


def oldlevel(c, phi, old):
    """oldTime(field): the old level of the field (its bookkeeping is C24's)"""
    asked = []

    def h(X, d, st, this, args):
        asked.append(isinstance(args[0], Path) and args[0].same(phi.path))
        return [Out(st, "v", old.path)]
    c.X.contracts[CC + "oldTime"] = h
    return asked


def diag_grown(c, s, P, M, S, ety, val):
    """every diagonal entry grows by val(cell, component); every other entry keeps its value"""
    e = c.T(ety)
    m, arr, sz, ex = data(c, s, S.v)
    t, p, u = (z3.Int(fresh_name(x)) for x in "tpu")
    cell = lambda x: z3.And(0 <= x, x < M.nC)
    n = len(comps(c, e, S.v.arr[iv(0)]))
    at = lambda a, p, q: comps(c, e, a[p])[q]
    out = [("the diagonal entry of every cell grows by exactly its term%s" % (", component %d" % q if n > 1 else ""),
            z3.And(sz == S.nnz, m == S.nnz, z3.ForAll([t], z3.Implies(cell(t), at(arr, P.locD(t), q) == at(S.v.arr, P.locD(t), q) + val(t, q))))) for q in range(n)]
    out.append(("no entry off the diagonal changes", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < S.nnz, z3.ForAll([u], z3.Implies(cell(u), P.locD(u) != p))), eqel(c, e, arr[p], S.v.arr[p])))))
    return out


def scheme_set(c, st, p):
    """the operator has been given its scheme (without one it terminates the program)"""
    for v in c.X.load(st, p).f.values():
        if z3.is_expr(v) and v.sort().eq(AnyS):
            st = st.assume(AnyS.tag(v) != 0)
    return st


def term(cls, ety, k):
    """DivOperator / LaplacianOperator: the implicit operation is one call of the scheme on the operator's own operands"""
    def f(c):
        w, M, phi, flux, P, S, st = setting(c, ety, k, "number")
        w.refs += [("SurfaceField", flux.path), ("VolumeField", phi.path)]
        qn = CC + cls + "<%s>" % ety
        st, this = w.obj(st, qn, "op")
        st = scheme_set(c, st, this)
        st, op, sc = setcoeff(c, w, st, this, qn, k, "number", M.nC)
        what = "div" if cls == "DivOperator" else "laplacian"
        calls = []

        def impl(X, md, s, obj, args):
            calls.append((s, obj, [X.load(s, a) if "Coeff" in p["type"]["qualType"] else a for a, p in zip(args, c.u.params(md))], md))
            return [Out(s, "v", None)]
        c.X.abstract_impl[CC + cls + "Factory::" + what] = impl
        for name in (("implicitOperation", "div") if cls == "DivOperator" else ("implicitOperation",)):
            del calls[:]
            outs = c.call(st, meth(c, qn, name, 0, S.cls), this, [S.path])

            def ret(s, _):
                ok = len(calls) == 1
                a = calls[0][2] if ok else []
                has = lambda p: any(isinstance(x, Path) and x.same(p) for x in a)
                return [("the scheme assembles once into this system from the operator's own operands", z3.BoolVal(ok and has(S.path) and has(flux.path) and has(phi.path))),
                        ("scaled by the operator's coefficient", X15.eqv(c, a[-1], op) if ok else z3.BoolVal(False)),
                        ("the system is left to the scheme", z3.And(*[unchanged(c, s, x) for x in (S.v, S.c_, S.o, S.b)]))] + unchanged_rest(c, s, M, phi, flux, P, S)
            c.expect("%s<%s>::%s %s" % (cls, ety, name, EXECS[k]), outs, ret, cover=("v",))
    return f


CONTRACTS = []
for ety in ETYS:
    for k in range(3):
        for kind in ("number", "field"):
            CONTRACTS.append(("div %s %s, %s" % (ety, kind, EXECS[k]), div(ety, k, kind)))
            CONTRACTS.append(("laplacian %s %s, %s" % (ety, kind, EXECS[k]), lap(ety, k, kind)))
            CONTRACTS.append(("source %s %s, %s" % (ety, kind, EXECS[k]), diagonal("SourceTerm", ety, k, kind)))
            CONTRACTS.append(("ddt %s %s, %s" % (ety, kind, EXECS[k]), diagonal("DdtOperator", ety, k, kind)))
        CONTRACTS.append(("GaussGreenDiv<%s> %s" % (ety, EXECS[k]), wrapper("GaussGreenDiv", "div", ety, k)))
        CONTRACTS.append(("GaussGreenLaplacian<%s> %s" % (ety, EXECS[k]), wrapper("GaussGreenLaplacian", "laplacian", ety, k)))
        CONTRACTS.append(("DivOperator<%s> %s" % (ety, EXECS[k]), term("DivOperator", ety, k)))
for k in range(3):
    CONTRACTS.append(("LaplacianOperator<double> %s" % EXECS[k], term("LaplacianOperator", "double", k)))
