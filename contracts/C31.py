"""C31: the geometry scheme's weights and distance coefficients, face by face, from the mesh geometry."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import FV_SCHEMES

UNIT = FV_SCHEMES
GS = CC + "GeometryScheme"
BGS = CC + "BasicGeometryScheme"
VEC = "NeoFOAM::Vector"
TINY = z3.RealVal("1e-18")


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def absr(x):
    return z3.If(x >= 0, x, -x)


class Geo:
    """the geometry of a mesh in terms of its accessors"""

    def __init__(self, c, M):
        e = c.T(VEC)
        v = lambda f: (lambda i: comps(c, e, f.arr[i]))
        self.sf, self.cf, self.cc = v(M.areas), v(M.faceCentres), v(M.cellCentres)
        self.mag = lambda i: M.magAreas.arr[i]
        self.own, self.nei, self.fc = (lambda f: M.owner.arr[f]), (lambda f: M.neighbour.arr[f]), (lambda f: M.faceCells.arr[f - M.nI])
        self.sqrt = z3.Function("sqrt", R, R)
        self.sub = lambda a, b: [x - y for x, y in zip(a, b)]

    def weight(self, f):
        a = absr(dot(self.sf(f), self.sub(self.cf(f), self.cc(self.own(f)))))
        b = absr(dot(self.sf(f), self.sub(self.cc(self.nei(f)), self.cf(f))))
        return a, b

    def dist(self, f, bound):
        """from the cell centre to the neighbour's centre (or to the centre of a boundary face)"""
        return self.sub(self.cf(f), self.cc(self.fc(f))) if bound else self.sub(self.cc(self.nei(f)), self.cc(self.own(f)))

    def delta(self, f, bound):
        d = self.dist(f, bound)
        return 1 / self.sqrt(dot(d, d))

    def ortho(self, f, bound):
        d = self.dist(f, bound)
        n = [1 / self.mag(f) * x for x in self.sf(f)]
        m = self.sqrt(dot(d, d))
        o = dot(n, d)
        return 1 / z3.If(o >= z3.RealVal("0.05") * m, o, z3.RealVal("0.05") * m)


def goals(c, M, G, which, b):
    f = z3.Int(fresh_name("f"))
    inner = lambda p: z3.ForAll([f], z3.Implies(z3.And(0 <= f, f < M.nI), p))
    outer = lambda p: z3.ForAll([f], z3.Implies(z3.And(M.nI <= f, f < M.nF), p))
    g = [("one value per face", b.n == M.nF)]
    if which == "weights":
        x, y = G.weight(f)
        g += [("the weight of an internal face is the neighbour's share of the projected distances", inner(z3.Implies(x + y > TINY, b.arr[f] == y / (x + y)))),
              ("one half where both projected distances vanish", inner(z3.Implies(x + y <= TINY, b.arr[f] == z3.RealVal("0.5")))),
              ("one on every boundary face", outer(b.arr[f] == 1))]
    elif which == "deltaCoeffs":
        g += [("one over the distance of the two cell centres", inner(b.arr[f] == G.delta(f, False))),
              ("one over the distance from the cell centre to the boundary face", outer(b.arr[f] == G.delta(f, True)))]
    else:
        g += [("one over the normal distance of the two cells, at least a twentieth of their distance", inner(b.arr[f] == G.ortho(f, False))),
              ("one over the normal distance to the boundary face, at least a twentieth of the distance", outer(b.arr[f] == G.ortho(f, True)))]
    return g


UPD = {"weights": "updateWeights", "deltaCoeffs": "updateDeltaCoeffs", "nonOrthDeltaCoeffs": "updateNonOrthDeltaCoeffs"}


def update(which, k):
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        out = GeoV(w, M.st, "SurfaceField", "double", "target", M)
        st, this = w.obj(out.st, BGS, "scheme")
        st, ex = c.put(st, w.ex, "exec")
        G = Geo(c, M)
        outs = c.call(st, meth(c, BGS, UPD[which], 1, CC + "SurfaceField<double>"), this, [ex, out.path])
        c.expect("%s, %s" % (UPD[which], EXECS[k]), outs, lambda s, _: goals(c, M, G, which, s.store[out.int.root]) + [M.same(s)], cover=("v",))
    return f


def whole(k):
    """a new geometry scheme of a mesh holds all three sets of coefficients"""
    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        c.X.contracts[CC + "createCalculatedBCs"] = lambda X, d, st, this, args: [Out(st, "v", c.S.fresh(X.u.types.parse(d["type"]["qualType"].split("(")[0].strip())))]
        G = Geo(c, M)
        outs = c.new(M.st, GS, ["const %s &" % MESH], [M.path])

        def ret(s, v):
            p = v
            if not isinstance(v, Path):
                s = s.copy()
                s.store["answer"] = v
                p = Path("answer")
            g = [M.same(s)]
            for which in UPD:
                at = w.get(s, p, GS, which)
                b = s.store[root_of(c, s, w.get(s, at, CC + "SurfaceField<double>", "internalField", True))]
                g += [("%s: %s" % (which, n), x) for n, x in goals(c, M, G, which, b)]
            return g
        c.expect("GeometryScheme of a mesh, %s" % EXECS[k], outs, ret, cover=("v",))
    return f


def exactness(c):
    """consequences of the weights"""
    x, y, w = z3.Reals("x y w")
    pre = [x >= 0, y >= 0, x + y > TINY, w == y / (x + y)]
    c.lemma("weights lie between zero and one", z3.And(0 <= w, w <= 1), pre)
    # along the face normal: owner at p, face at f, neighbour at n, in this order: a linear function is interpolated exactly
    p, f, n, a, b = z3.Reals("p f n a b")
    c.lemma("linear functions along the face normal are interpolated exactly", w * (a * p + b) + (1 - w) * (a * n + b) == a * f + b,
            [p <= f, f <= n, n - p > TINY, x == f - p, y == n - f, w == y / (x + y)])


CONTRACTS = [("consequences", exactness)]
for k in range(3):
    for which in UPD:
        CONTRACTS.append(("%s %s" % (UPD[which], EXECS[k]), update(which, k)))
    CONTRACTS.append(("GeometryScheme %s" % EXECS[k], whole(k)))
