"""C15: divergence, gradient, Laplacian and surface integration give every cell its operator scaling over the cell volume times the
sum of its faces' fluxes, once each and with the right sign; the sum over all cells is the sum of the boundary fluxes."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import FV_OPS

UNIT = FV_OPS
N = "NeoFOAM::finiteVolume::cellCentred::"
COEFF = "NeoFOAM::dsl::Coeff"


def sized(c, st, ety, name, n, const=True):
    st, v, m, arr = view(c, st, ety, name, n=n, const=const)
    return st, v, arr


def coeff(c, st, kind, k, nC):
    """an operator coefficient (a number, or a number times a field): its value and the value of its elements"""
    a = z3.Real("opscale")
    if kind == "number":
        st, p = c.put(st, a, "opscale_v")
        o = c.new(st, COEFF, ["double"], [a])[0]
        return o.st, c.X.load(o.st, o.v), lambda t: a
    st, fl = mkfield(c, st, "double", "opfield", k, n=nC)
    o = c.new(st, COEFF, ["double", "const NeoFOAM::Field<double> &"], [a, fl.path])[0]
    return o.st, c.X.load(o.st, o.v), lambda t: a * fl.arr[t]


class Mesh:
    """addressing and geometry of an arbitrary mesh"""

    def __init__(self, c):
        self.nC, self.nI, self.nB = z3.Ints("nCells nInternal nBoundary")
        for x in (self.nC, self.nI, self.nB):
            c.S.fact(z3.And(x >= 0, x <= BIG))
        c.S.fact(self.nI + self.nB <= BIG)
        self.nF = self.nI + self.nB


def gather(c, M, own, nei, fc, flux, ncomp):
    """per component q: t -> sum of the signed face contributions of cell t; flux(q, face)"""
    fs = []
    for q in range(ncomp):
        a = c.sumt(lambda j, t, q=q: z3.If(own(j) == t, flux(q, j), 0), R)
        b = c.sumt(lambda j, t, q=q: z3.If(nei(j) == t, flux(q, j), 0), R)
        d = c.sumt(lambda j, t, q=q: z3.If(fc(j) == t, flux(q, M.nI + j), 0), R)
        fs.append(lambda t, a=a, b=b, d=d: a(M.nI, t) - b(M.nI, t) + d(M.nB, t))
    return fs


def views(c, k, ety, kind, flux_is):
    """symbolic arguments of the two free-standing kernels"""
    st = c.state()
    M = Mesh(c)
    st, nei, neiA = sized(c, st, "int", "neighbour", M.nI)
    st, own, ownA = sized(c, st, "int", "owner", M.nF)
    st, fc, fcA = sized(c, st, "int", "faceCells", M.nB)
    st, v, vA = sized(c, st, "double", "vol", M.nC)
    st, res, resA = sized(c, st, ety, "res", M.nC, const=False)
    st, phif, phifA = sized(c, st, ety, "phif", M.nF)
    st, ff, ffA = sized(c, st, "double", "faceFlux", M.nF)
    for a, n in ((neiA, M.nI), (ownA, M.nF), (fcA, M.nB)):
        st = st.assume(inside(a, n, M.nC))
    st = st.assume(positive(vA, M.nC))
    st, op, opv = coeff(c, st, kind, k, M.nC)
    return st, M, (nei, neiA), (own, ownA), (fc, fcA), (v, vA), (res, resA), (phif, phifA), (ff, ffA), op, opv


def post(c, M, ety, s, resA, vA, opv, fs, root="res_data"):
    e = c.T(ety)
    b = s.store[root]
    t = z3.Int(fresh_name("t"))
    old = lambda t: comps(c, e, resA[t]) if resA is not None else [z3.RealVal(0)] * len(fs)
    return [("%s of every cell is scaling / volume * (old value + signed fluxes of its faces)" % ("component %d" % q if len(fs) > 1 else "the value"),
             z3.And(b.n == M.nC, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nC), comps(c, e, b.arr[t])[q] == (old(t)[q] + f(t)) * (opv(t) / vA[t])))))
            for q, f in enumerate(fs)]


def same_block(c, s, root, n, arr, e):
    b = s.store[root]
    t = z3.Int(fresh_name("t"))
    return z3.And(b.n == n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), eqel(c, e, b.arr[t], arr[t]))))


def kernel(which, ety, k, kind):
    def f(c):
        st, M, nei, own, fc, v, res, phif, ff, op, opv = views(c, k, ety, kind, None)
        e = c.T(ety)
        fl = (lambda q, j: ff[1][j] * comps(c, e, phif[1][j])[q]) if which == "computeDiv" else (lambda q, j: comps(c, e, phif[1][j])[q])
        fs = gather(c, M, lambda j: own[1][j], lambda j: nei[1][j], lambda j: fc[1][j], fl, len(comps(c, e, phif[1][iv(0)])))
        st, ex = c.put(st, executor(c, k), "exec")
        d = free(c, N + which, par(c, 7 if which == "computeDiv" else 5, "NeoFOAM::View<%s>" % ety))
        if which == "computeDiv":
            args = [ex, M.nI, M.nB, nei[0], own[0], fc[0], ff[0], phif[0], v[0], res[0], op]
        else:
            args = [ex, M.nI, nei[0], own[0], fc[0], phif[0], v[0], res[0], op]
        outs = c.call(st, d, None, args)

        def ret(s, _):
            return post(c, M, ety, s, res[1], v[1], opv, fs) + [
                ("the inputs are unchanged", z3.And(*[z3.BoolVal(s.store[r] is st.store[r]) for r in ("neighbour_data", "owner_data", "faceCells_data", "vol_data", "phif_data", "faceFlux_data")]))]
        c.expect("%s<%s> scaled by a %s, %s" % (which, ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


class Face:
    """contract of the interpolation / face-normal-gradient strategies (each strategy is proved against it in C17): the internal field
    of the target takes arbitrary values, nothing else changes"""

    def __init__(self, c, w, qn, ety):
        self.c, self.w, self.ety, self.calls = c, w, ety, 0
        self.arr = z3.Const("faceval", z3.ArraySort(I, c.S.sort(c.T(ety))))
        self.args = []
        c.X.abstract_impl[qn] = self.call

    def call(self, X, md, s, obj, args):
        c = self.c
        self.calls += 1
        dst = args[-1]
        self.args.append((s, list(args)))
        f = c.X.load(s, dst)
        r = self.w.get(s, dst, "%sSurfaceField<%s>" % (CC, self.ety), "internalField", True)
        root = root_of(c, s, r)
        b = s.store[root]
        s = s.copy()
        s.store[root] = SeqV(b.ety, b.n, self.arr)
        return [Out(s, "v", None)]


def bcs(c):
    """createCalculatedBCs: some list of boundary conditions (only stored, never applied, by the operators)"""
    def h(X, d, st, this, args):
        return [Out(st, "v", c.S.fresh(X.u.types.parse(d["type"]["qualType"].split("(")[0].strip())))]
    c.X.contracts[CC + "createCalculatedBCs"] = h


def exp(which, ety, k, kind):
    """the operators on whole fields; ety is the type of the result"""
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        src = "double" if which == "computeGrad" else ety
        phi = GeoV(w, M.st, "VolumeField", src, "phi", M)
        st = phi.st
        e = c.T(ety)
        bcs(c)
        flux = GeoV(w, st, "SurfaceField", "double", "flux", M)
        st = flux.st
        old = None
        opv = lambda t: z3.RealVal(1)
        if which == "computeLaplacianExp":
            st, strat = w.obj(st, CC + "FaceNormalGradient<%s>" % src, "strategy")
            fc = Face(c, w, CC + "FaceNormalGradientFactory::faceNormalGrad", src)
            fv = lambda q, j: flux.int.arr[j] * M.magAreas.arr[j] * comps(c, e, fc.arr[j])[q]
        else:
            st, strat = w.obj(st, CC + "SurfaceInterpolation<%s>" % src, "strategy")
            fc = Face(c, w, CC + "SurfaceInterpolationFactory::interpolate", src)
            if which == "computeDivExp":
                fv = lambda q, j: flux.int.arr[j] * comps(c, e, fc.arr[j])[q]
            else:
                fv = lambda q, j: comps(c, e, M.areas.arr[j])[q] * fc.arr[j]
        if which == "computeGrad":
            out = GeoV(w, st, "VolumeField", ety, "grad", M)
            st, res = out.st, out.int
        else:
            st, res = mkfield(c, st, ety, "res", k, n=M.nC, ex=w.ex)
            st, op, opv = coeff(c, st, kind, k, M.nC)
        fs = gather(c, M, lambda j: M.owner.arr[j], lambda j: M.neighbour.arr[j], lambda j: M.faceCells.arr[j], fv, len(comps(c, e, res.arr[iv(0)])))
        if which == "computeDivExp":
            outs = c.call(st, free(c, N + which, par(c, 1, phi.cls)), None, [flux.path, phi.path, strat, res.path, op])
        elif which == "computeGrad":
            outs = c.call(st, free(c, N + which), None, [phi.path, strat, out.path])
        else:
            outs = c.call(st, free(c, N + which, par(c, 2, phi.cls)), None, [strat, flux.path, phi.path, res.path, op])

        def asked(s):
            """the face values come from one call of the strategy on these operands"""
            ok = len(fc.args) == 1
            if ok:
                s0, a = fc.args[0]
                a = [x for x in a[:-1]]
                ok = isinstance(a[-1], Path) and a[-1].same(phi.path) and all(isinstance(x, Path) and x.same(flux.path) for x in a[:-1]) and (which != "computeDivExp" or len(a) == 2)
            return z3.BoolVal(ok)

        def ret(s, _):
            g = post(c, M, ety, s, res.arr, M.vol.arr, opv, fs, res.root)
            return g + [("the face values are those of the chosen scheme for this field%s" % (" and flux" if which == "computeDivExp" else ""), asked(s)),
                        M.same(s), ("the operands are unchanged", z3.And(phi.same(s), flux.same(s)))]
        c.expect("%s<%s>%s, %s" % (which, ety, " scaled by a " + kind if which != "computeGrad" else "", EXECS[k]), outs, ret, cover=("v",))
    return f


def assumed(c, w, M, ety, kernelfn):
    """the kernel's own contract, used at its call sites in the operator classes: it is proved above for every operand.
    S(q, t) stands for the signed fluxes of cell t that the kernel's contract speaks about, for the operands of the call"""
    e = c.T(ety)
    n = len(comps(c, e, z3.Const("e0", c.S.sort(e))))
    h = lambda: None
    S = [z3.Function("signed_fluxes%d" % q, I, R) for q in range(n)]
    h.fs = [lambda t, f=f: f(t) for f in S]

    def call(X, d, st, this, args):
        op, res = None, None
        for a, p in zip(args, c.u.params(d)):
            t = p["type"]["qualType"]
            if "Coeff" in t:
                op = X.load(st, a) if isinstance(a, Path) else a
            elif t.startswith("Field<") or t.startswith("NeoFOAM::Field<") or t.startswith("VolumeField<Vec"):
                res = a
        if op is None and kernelfn == "computeGrad":
            op = 1
        if op is None or res is None or "kernel_call" in st.store:
            raise Unsupported("call of %s" % kernelfn)
        if kernelfn == "computeGrad":
            res = w.get(st, res, CC + "VolumeField<%s>" % ety, "internalField", True)
        root = root_of(c, st, res)
        b = st.store[root]
        R_ = z3.Const(fresh_name("kernel_result"), z3.ArraySort(I, c.S.sort(e)))
        s = st.copy()
        s.store[root] = SeqV(b.ety, b.n, R_)
        s.store["kernel_call"] = (op, tuple(a for a in args if isinstance(a, Path)))
        t = z3.Int(fresh_name("t"))
        s = s.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nC), z3.And(*[
            comps(c, e, R_[t])[q] == (comps(c, e, b.arr[t])[q] + f(t)) * (h.opv(t) / M.vol.arr[t]) for q, f in enumerate(h.fs)])), patterns=[R_[t]]))
        return [Out(s, "v", None)]
    c.X.contracts[N + kernelfn] = call
    return h


def wrapper(cls, which, ety, k, form):
    """the operator classes: form is what the result is handed over in"""
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        phi = GeoV(w, M.st, "VolumeField", ety, "phi", M)
        flux = GeoV(w, phi.st, "SurfaceField", "double", "flux", M)
        bcs(c)
        st, this = w.obj(flux.st, CC + cls + "<%s>" % ety, "op")
        h = assumed(c, w, M, ety, "computeLaplacianExp" if which == "laplacian" else "computeDivExp")
        st, op, h.opv = coeff(c, st, "number", k, M.nC)
        if form == "Field":
            st, out = mkfield(c, st, ety, "res", k, n=M.nC, ex=w.ex)
            args, tgt, old = [out.path, flux.path, phi.path, op], out.root, out.arr
            d = meth(c, CC + cls + "<%s>" % ety, which, 0, "NeoFOAM::Field<%s>" % ety)
        elif form == "VolumeField":
            out = GeoV(w, st, "VolumeField", ety, "res", M)
            st = out.st
            args, tgt, old = [out.path, flux.path, phi.path, op], out.int.root, out.int.arr
            d = meth(c, CC + cls + "<%s>" % ety, which, 0, CC + "VolumeField<%s>" % ety)
        else:
            args, tgt, old = [flux.path, phi.path, op], None, None
            d = meth(c, CC + cls + "<%s>" % ety, which, n=3)
        outs = c.call(st, d, this, args)

        def ret(s, v):
            call = s.store.get("kernel_call")
            ok = call is not None and any(x.same(phi.path) for x in call[1]) and any(x.same(flux.path) for x in call[1]) \
                and any(x.root == "op" for x in call[1])
            g = [("the operator is evaluated once, on these operands and with the scheme it was built with", z3.BoolVal(ok)),
                 ("scaled by the given coefficient", eqv(c, call[0], op) if ok else z3.BoolVal(False))]
            if tgt is None:
                p = v
                if not isinstance(v, Path):
                    s = s.copy()
                    s.store["answer"] = v
                    p = Path("answer")
                root = root_of(c, s, w.get(s, p, CC + "VolumeField<%s>" % ety, "internalField", True))
                g += post(c, M, ety, s, None, M.vol.arr, h.opv, h.fs, root)
            else:
                g += post(c, M, ety, s, old, M.vol.arr, h.opv, h.fs, tgt)
            return g + [M.same(s), ("the operands are unchanged", z3.And(phi.same(s), flux.same(s)))]
        c.expect("%s<%s>::%s into a %s, %s" % (cls, ety, which, form, EXECS[k]), outs, ret, cover=("v",))
    return f


def integrate(ety, k, kind):
    """SurfaceIntegrate::explicitOperation adds the scaled integral to the source"""
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        flux = GeoV(w, M.st, "SurfaceField", ety, "flux", M)
        e = c.T(ety)
        w.refs.append(("SurfaceField", flux.path))
        cls = N + "SurfaceIntegrate<%s>" % ety
        st, this = w.obj(flux.st, cls, "op")
        st, op, opv = coeff(c, st, kind, k, M.nC)
        at = w.get(st, this, cls, "getCoefficient", False)
        r = c.X.write(st, at, op)
        st = r if r is not None else st
        st, out = mkfield(c, st, ety, "source", k, n=M.nC, ex=w.ex)
        fs = gather(c, M, lambda j: M.owner.arr[j], lambda j: M.neighbour.arr[j], lambda j: M.faceCells.arr[j], lambda q, j: comps(c, e, flux.int.arr[j])[q], len(comps(c, e, out.arr[iv(0)])))
        outs = c.call(st, meth(c, cls, "explicitOperation", n=1), this, [out.path])

        def ret(s, _):
            b = s.store[out.root]
            t = z3.Int(fresh_name("t"))
            g = [("component %d of the source grows by scaling / volume * the signed fluxes" % q,
                  z3.And(b.n == M.nC, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nC), comps(c, e, b.arr[t])[q] == comps(c, e, out.arr[t])[q] + fq(t) * (opv(t) / M.vol.arr[t])))))
                 for q, fq in enumerate(fs)]
            return g + [M.same(s), ("the fluxes are unchanged", flux.same(s))]
        c.expect("SurfaceIntegrate<%s>::explicitOperation scaled by a %s, %s" % (ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def gradient(k, new):
    """GaussGreenGrad::grad with the kernel's contract at its call site"""
    def f(c):
        w = World(c, k)
        ety = "NeoFOAM::Vector"
        M = MeshV(w, c.state())
        phi = GeoV(w, M.st, "VolumeField", "double", "phi", M)
        bcs(c)
        cls = N + "GaussGreenGrad"
        st, this = w.obj(phi.st, cls, "op")
        h = assumed(c, w, M, ety, "computeGrad")
        h.opv = lambda t: z3.RealVal(1)
        if new:
            outs = c.call(st, meth(c, cls, "grad", n=1), this, [phi.path])
        else:
            out = GeoV(w, st, "VolumeField", ety, "res", M)
            outs = c.call(out.st, meth(c, cls, "grad", n=2), this, [phi.path, out.path])

        def ret(s, v):
            call = s.store.get("kernel_call")
            ok = call is not None and any(x.same(phi.path) for x in call[1]) and any(x.root == "op" for x in call[1])
            g = [("the gradient is evaluated once, of this field and with the scheme it was built with", z3.BoolVal(ok))]
            if new:
                p = v
                if not isinstance(v, Path):
                    s = s.copy()
                    s.store["answer"] = v
                    p = Path("answer")
                g += post(c, M, ety, s, None, M.vol.arr, h.opv, h.fs, root_of(c, s, w.get(s, p, CC + "VolumeField<%s>" % ety, "internalField", True)))
            else:
                g += post(c, M, ety, s, out.int.arr, M.vol.arr, h.opv, h.fs, out.int.root)
            return g + [M.same(s), ("the operand is unchanged", phi.same(s))]
        c.expect("GaussGreenGrad::grad %s, %s" % ("into a new field" if new else "into a field", EXECS[k]), outs, ret, cover=("v",))
    return f


def eqv(c, a, b):
    """the two coefficients are the same value"""
    def leaves(x):
        return [x] if not isinstance(x, St) else [y for n in sorted(x.f) for y in leaves(x.f[n])]
    r = []
    for x, y in zip(leaves(a), leaves(b)):
        if z3.is_expr(x) and z3.is_expr(y):
            r.append(x == y)
        elif isinstance(x, SeqV) and isinstance(y, SeqV):
            r.append(z3.And(x.n == y.n, x.arr == y.arr))
        elif isinstance(x, Path) and isinstance(y, Path):
            r.append(z3.BoolVal(x.same(y)))
    return z3.And(*r) if r else z3.BoolVal(False)


CONTRACTS = []
for ety in ("double", "NeoFOAM::Vector"):
    for k in range(3):
        for which in ("computeDivExp", "computeLaplacianExp"):
            kind = "number" if which == "computeDivExp" else "field"
            CONTRACTS.append(("%s<%s> %s" % (which, ety, EXECS[k]), exp(which, ety, k, kind)))
for k in range(3):
    CONTRACTS.append(("computeGrad %s" % EXECS[k], exp("computeGrad", "NeoFOAM::Vector", k, None)))
for which in ("computeDiv", "surfaceIntegrate"):
    for ety in ("double", "NeoFOAM::Vector"):
        for k in range(3):
            for kind in ("number", "field"):
                CONTRACTS.append(("%s<%s> %s, %s" % (which, ety, kind, EXECS[k]), kernel(which, ety, k, kind)))


for ety in ("double", "NeoFOAM::Vector"):
    for k in range(3):
        for form in ("Field", "VolumeField", "new field"):
            CONTRACTS.append(("GaussGreenDiv<%s>::div %s %s" % (ety, form, EXECS[k]), wrapper("GaussGreenDiv", "div", ety, k, form)))
        for form in ("Field", "VolumeField"):
            CONTRACTS.append(("GaussGreenLaplacian<%s>::laplacian %s %s" % (ety, form, EXECS[k]), wrapper("GaussGreenLaplacian", "laplacian", ety, k, form)))


for k in range(3):
    for new in (False, True):
        CONTRACTS.append(("GaussGreenGrad::grad %s %s" % ("new field" if new else "field", EXECS[k]), gradient(k, new)))
    for ety in ("double", "NeoFOAM::Vector"):
        CONTRACTS.append(("SurfaceIntegrate<%s> %s" % (ety, EXECS[k]), integrate(ety, k, "number" if k else "field")))


def conservation(c):
    """sum over all cells of volume * unscaled result = sum of the boundary fluxes: the sums over faces and cells are exchanged by
    induction over the faces, each step by induction over the cells"""
    n, m, o = z3.Ints("n m o")
    f, D0, D1 = z3.Reals("f D0 D1")
    hit = lambda o, k, f: z3.If(z3.And(0 <= o, o < k), f, z3.RealVal(0))
    c.lemma("one face over all cells: base", hit(o, iv(0), f) == 0)
    c.lemma("one face over all cells: step", D1 == hit(o, n + 1, f), [n >= 0, D0 == hit(o, n, f), D1 == D0 + z3.If(o == n, f, 0)])
    # sum_{c<n} (G(c) + [o=c] f) = sum_{c<n} G(c) + sum_{c<n} [o=c] f
    a0, a1, b0, b1, d0, d1, g = z3.Reals("a0 a1 b0 b1 d0 d1 g")
    c.lemma("adding one face to every cell's sum: step", a1 == b1 + d1, [a0 == b0 + d0, a1 == a0 + (g + z3.If(o == n, f, 0)), b1 == b0 + g, d1 == d0 + z3.If(o == n, f, 0)])
    c.lemma("adding one face to every cell's sum: base", a0 == b0 + d0, [a0 == 0, b0 == 0, d0 == 0])
    # X(m) = sum over cells of the first m faces' contributions; F(m) = sum of the first m fluxes
    X, F = z3.Function("X", I, R), z3.Function("F", I, R)
    fl = z3.Function("fl", I, R)
    own = z3.Function("own", I, I)
    N = z3.Int("N")
    rec = [N >= 0, X(m + 1) == X(m) + hit(own(m), N, fl(m)), F(m + 1) == F(m) + fl(m), 0 <= own(m), own(m) < N, m >= 0]
    c.lemma("every face counts once over all cells: base", X(iv(0)) == F(iv(0)), [X(0) == 0, F(0) == 0])
    c.lemma("every face counts once over all cells: step", X(m + 1) == F(m + 1), rec + [X(m) == F(m)])
    so, sn, sb, Fi, Fb = z3.Reals("so sn sb Fi Fb")
    c.lemma("internal faces cancel, boundary faces remain", so - sn + sb == Fb, [so == Fi, sn == Fi, sb == Fb])
    r, v = z3.Reals("r v")
    c.lemma("volume times the unscaled result of a zeroed cell is its signed flux sum", v * ((0 + r) * (1 / v)) == r, [v > 0])


CONTRACTS.append(("conservation", conservation))
