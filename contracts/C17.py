"""C17: face values and face-normal gradients, face by face."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import FV_SCHEMES

UNIT = FV_SCHEMES
GS = CC + "GeometryScheme"
ETYS = ("double", "NeoFOAM::Vector")


def setting(c, k, ety):
    """mesh, cell field, flux, target and the geometry scheme shared by all schemes on the mesh; its weights are one on boundary
    faces (proved for the geometry scheme itself in C31)"""
    w = World(c, k)
    M = MeshV(w, c.state())
    phi = GeoV(w, M.st, "VolumeField", ety, "phi", M)
    flux = GeoV(w, phi.st, "SurfaceField", "double", "flux", M)
    out = GeoV(w, flux.st, "SurfaceField", ety, "target", M)
    st, gs = w.value(out.st, c.T("std::shared_ptr<%s>" % GS), "scheme_ptr")
    sub = {}
    for n in ("weights", "deltaCoeffs", "nonOrthDeltaCoeffs"):
        p = w.get(st, gs, GS, n)
        g = GeoV.at(w, st, "SurfaceField", "double", p, M)
        st = g.st
        sub[n] = g
    t = z3.Int(fresh_name("t"))
    st = st.assume(z3.ForAll([t], z3.Implies(z3.And(M.nI <= t, t < M.nF), sub["weights"].int.arr[t] == 1), patterns=[sub["weights"].int.arr[t]]))
    return w, M, phi, flux, out, gs, sub, st


def faces(c, M, s, root, ety, inner, bound):
    """one goal per component and kind of face: inner(q, f), bound(q, f)"""
    e = c.T(ety)
    b = s.store[root]
    t = z3.Int(fresh_name("t"))
    n = len(comps(c, e, b.arr[t]))
    g = [("one value per face", b.n == M.nF)]
    for q in range(n):
        nm = ", component %d" % q if n > 1 else ""
        g.append(("every internal face%s" % nm, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nI), comps(c, e, b.arr[t])[q] == inner(q, t)))))
        g.append(("every boundary face%s" % nm, z3.ForAll([t], z3.Implies(z3.And(M.nI <= t, t < M.nF), comps(c, e, b.arr[t])[q] == bound(q, t)))))
    return g


def formula(c, kind, M, phi, flux, sub, ety):
    e = c.T(ety)
    cell = lambda q, x: comps(c, e, phi.int.arr[x])[q]
    bv = lambda q, f: comps(c, e, phi.value.arr[f - M.nI])[q]
    own, nei, fc = (lambda f: M.owner.arr[f]), (lambda f: M.neighbour.arr[f]), (lambda f: M.faceCells.arr[f - M.nI])
    if kind == "linear":
        w = sub["weights"].int.arr
        return (lambda q, f: w[f] * cell(q, own(f)) + (1 - w[f]) * cell(q, nei(f))), bv
    if kind == "upwind":
        return (lambda q, f: z3.If(flux.int.arr[f] >= 0, cell(q, own(f)), cell(q, nei(f)))), bv
    d = sub["nonOrthDeltaCoeffs"].int.arr
    return (lambda q, f: d[f] * (cell(q, nei(f)) - cell(q, own(f)))), (lambda q, f: d[f] * (bv(q, f) - cell(q, fc(f))))


def same_all(c, s, M, phi, flux, sub):
    return [M.same(s), ("the cell field, the fluxes and the geometry coefficients are unchanged", z3.And(phi.same(s), flux.same(s), *[g.same(s) for g in sub.values()]))]


def kernel(kind, ety, k):
    def f(c):
        w, M, phi, flux, out, gs, sub, st = setting(c, k, ety)
        fi, fb = formula(c, kind, M, phi, flux, sub, ety)
        if kind == "linear":
            outs = c.call(st, free(c, CC + "computeLinearInterpolation", par(c, 0, phi.cls)), None, [phi.path, sub["weights"].path, out.path])
        elif kind == "upwind":
            outs = c.call(st, free(c, CC + "computeUpwindInterpolation", par(c, 0, phi.cls)), None, [phi.path, flux.path, sub["weights"].path, out.path])
        else:
            outs = c.call(st, free(c, CC + "computeFaceNormalGrad", par(c, 0, phi.cls)), None, [phi.path, gs, out.path])
        c.expect("%s<%s>, %s" % (kind, ety, EXECS[k]), outs, lambda s, _: faces(c, M, s, out.int.root, ety, fi, fb) + same_all(c, s, M, phi, flux, sub), cover=("v",))
    return f


CONTRACTS = []
for ety in ETYS:
    for k in range(3):
        for kind in ("linear", "upwind", "gradient"):
            CONTRACTS.append(("%s kernel<%s> %s" % (kind, ety, EXECS[k]), kernel(kind, ety, k)))


def strategy(kind, ety, k, form):
    """the scheme classes give the kernel's result, with the coefficients of the mesh's geometry scheme"""
    cls = CC + {"linear": "Linear", "upwind": "Upwind", "gradient": "Uncorrected"}[kind] + "<%s>" % ety

    def f(c):
        w, M, phi, flux, out, gs, sub, st = setting(c, k, ety)
        fi, fb = formula(c, kind, M, phi, flux, sub, ety)
        st, this = w.obj(st, cls, "this")
        if kind == "gradient":
            outs = c.call(st, meth(c, cls, "faceNormalGrad", n=2), this, [phi.path, out.path])
        elif form == "with flux":
            outs = c.call(st, meth(c, cls, "interpolate", n=3), this, [flux.path, phi.path, out.path])
        else:
            outs = c.call(st, meth(c, cls, "interpolate", n=2), this, [phi.path, out.path])
        c.expect("%s %s, %s" % (cls, form, EXECS[k]), outs, lambda s, _: faces(c, M, s, out.int.root, ety, fi, fb) + same_all(c, s, M, phi, flux, sub), cover=("v",))
        if kind == "gradient":
            outs = c.call(st, meth(c, cls, "deltaCoeffs", n=0), this, [])
            c.expect("%s::deltaCoeffs, %s" % (cls, EXECS[k]), outs, lambda s, v: [("the coefficients the gradient is computed with", z3.BoolVal(isinstance(v, Path) and v.same(sub["nonOrthDeltaCoeffs"].path)))])
        if kind == "linear" and form != "with flux":
            wt = GeoV(w, st, "SurfaceField", "double", "weight", M)
            for n in (2, 3):
                outs = c.call(wt.st, meth(c, cls, "weight", n=n), this, ([flux.path] if n == 3 else []) + [phi.path, wt.path])
                c.expect("%s::weight/%d, %s" % (cls, n, EXECS[k]), outs, lambda s, _: [("the weights of the geometry scheme", copied(c, s, w, wt, sub["weights"], M.nF))] + same_all(c, s, M, phi, flux, sub))
    return f


def copied(c, s, w, dst, src, n):
    b = s.store[root_of(c, s, w.get(s, dst.path, dst.cls, "internalField", True))]
    t = z3.Int(fresh_name("t"))
    return z3.And(b.n == n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), b.arr[t] == src.int.arr[t])))


def frontend(kind, ety, k, form):
    """SurfaceInterpolation / FaceNormalGradient hand exactly their operands to the chosen scheme, also when they return a new field"""
    cls = CC + ("FaceNormalGradient" if kind == "gradient" else "SurfaceInterpolation") + "<%s>" % ety
    fn = "faceNormalGrad" if kind == "gradient" else "interpolate"

    def f(c):
        w, M, phi, flux, out, gs, sub, st = setting(c, k, ety)
        c.X.contracts[CC + "createCalculatedBCs"] = lambda X, d, st, this, args: [Out(st, "v", c.S.fresh(X.u.types.parse(d["type"]["qualType"].split("(")[0].strip())))]
        st, this = w.obj(st, cls, "this")
        res = z3.Const("scheme_result", z3.ArraySort(I, c.S.sort(c.T(ety))))

        def strat(X, md, s, obj, args):
            r = w.get(s, args[-1], CC + "SurfaceField<%s>" % ety, "internalField", True)
            root = root_of(c, s, r)
            if "scheme_call" in s.store:
                raise Unsupported("two calls of the scheme")
            s = s.copy()
            b = s.store[root]
            s.store[root] = SeqV(b.ety, b.n, res)
            s.store["scheme_call"] = (md["name"], tuple(args[:-1]), b.n, obj.root)
            return [Out(s, "v", None)]
        c.X.abstract_impl[cls + "Factory::" + fn] = strat
        c.X.abstract_impl[CC + ("FaceNormalGradientFactory::" if kind == "gradient" else "SurfaceInterpolationFactory::") + fn] = strat
        ops = ([flux.path] if "flux" in form else []) + [phi.path]
        if "new" in form:
            d = meth(c, cls, fn, n=len(ops))
            outs = c.call(st, d, this, ops)
        else:
            outs = c.call(st, meth(c, cls, fn, n=len(ops) + 1), this, ops + [out.path])

        def ret(s, v):
            call = s.store.get("scheme_call")
            ok = call is not None and len(call[1]) == len(ops) and all(isinstance(a, Path) and a.same(b) for a, b in zip(call[1], ops)) and call[3] == "this"
            p = out.path
            if "new" in form:
                p = v
                if not isinstance(v, Path):
                    s = s.copy()
                    s.store["answer"] = v
                    p = Path("answer")
            b = s.store[root_of(c, s, w.get(s, p, CC + "SurfaceField<%s>" % ety, "internalField", True))]
            return [("its own scheme is called once with exactly these operands", z3.BoolVal(ok)),
                    ("the scheme's values for every face of the mesh", z3.And(b.n == M.nF, b.arr == res))] + same_all(c, s, M, phi, flux, sub)
        c.expect("%s::%s %s, %s" % (cls, fn, form, EXECS[k]), outs, ret, cover=("v",))
    return f


for ety in ETYS:
    for k in range(3):
        for kind, form in (("linear", "without flux"), ("linear", "with flux"), ("upwind", "with flux"), ("gradient", "")):
            CONTRACTS.append(("%s<%s> scheme %s %s" % (kind, ety, form, EXECS[k]), strategy(kind, ety, k, form)))
        for kind, form in (("interpolation", "without flux"), ("interpolation", "with flux"), ("interpolation", "new field"), ("gradient", ""), ("gradient", "new field")):
            CONTRACTS.append(("%s<%s> front end %s %s" % (kind, ety, form, EXECS[k]), frontend(kind, ety, k, form)))
