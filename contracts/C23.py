"""C23: the uniform one-dimensional mesh, for every number of cells."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import MESH1D

UNIT = MESH1D
VEC = "NeoFOAM::Vector"
BM = "NeoFOAM::BoundaryMesh"
INT = "int"


class Made:
    """the mesh object a call returned, seen through its accessors"""

    def __init__(self, c, k, st, v):
        self.c, self.st = c, st
        if not isinstance(v, Path):
            st = st.copy()
            st.store["made"] = v
            v = Path("made")
        self.st, self.p = st, v
        self.w = World(c, k)
        self.bm = self.w.get(st, v, MESH, "boundaryMesh")

    def num(self, n):
        return self.c.X.load(self.st, self.w.get(self.st, self.p, MESH, n))

    def field(self, n, ety, b=False):
        """(number of elements, element t -> components, executor)"""
        c = self.c
        r = self.w.get(self.st, self.bm if b else self.p, BM if b else MESH, n)
        m, arr, sz, ex = val_data(c, self.st, c.X.load(self.st, r))
        e = c.T(ety)
        return z3.If(m == sz, sz, iv(-1)), (lambda t: comps(c, e, arr[t])), ex

    def both(self, n, k, ety, want, count, b=False):
        t = z3.Int(fresh_name("t"))
        sz, at, ex = self.field(n, ety, b)
        w = want(t)
        return [("one %s per %s" % (n, "boundary face" if b else "element"), sz == count),
                ("%s has its place in the mesh" % n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < count), z3.And(*[x == y for x, y in zip(at(t), w)])))),
                ("%s lives on the executor" % n, ex.idx == k)]


def made(k):
    def f(c):
        st = c.state()
        ex = executor(c, k)
        n = z3.Int("nCells")
        st = st.assume(z3.And(n >= 1, n <= BIG - 1))
        h = z3.Real("h")
        nr = z3.ToReal(n)
        st = st.assume(h == 1 / nr)
        d = free(c, "NeoFOAM::create1DUniformMesh")
        st, pex = c.put(st, ex, "exec")
        outs = c.call(st, d, None, [pex, n])
        R0, R1 = z3.RealVal(0), z3.RealVal(1)

        def rel(s, v):
            m = Made(c, k, s, v)
            r = z3.ToReal
            nF = n + 1
            inner = lambda t: t < n - 1
            left = lambda t: t == n - 1
            g = [("the numbers of cells, faces and patches", z3.And(m.num("nCells") == n, m.num("nInternalFaces") == n - 1, m.num("nBoundaryFaces") == 2, m.num("nBoundaries") == 2, m.num("nFaces") == nF))]
            g += m.both("cellVolumes", k, "double", lambda t: [h], n)
            g += m.both("cellCentres", k, VEC, lambda t: [(r(t) + z3.RealVal("1/2")) * h, R0, R0], n)
            centre = lambda t: [z3.If(inner(t), (r(t) + 1) * h, z3.If(left(t), R0, R1)), R0, R0]
            g += m.both("faceCentres", k, VEC, centre, nF)
            g += m.both("points", k, VEC, centre, nF)
            g += m.both("faceAreas", k, VEC, lambda t: [z3.If(left(t), -R1, R1), R0, R0], nF)
            g += m.both("magFaceAreas", k, "double", lambda t: [R1], nF)
            g += m.both("faceOwner", k, INT, lambda t: [z3.If(inner(t), t, z3.If(left(t), iv(0), n - 1))], nF)
            g += m.both("faceNeighbour", k, INT, lambda t: [t + 1], n - 1)
            two = iv(2)
            side = lambda a, b: (lambda t: [z3.If(t == 0, a, b)])
            vec = lambda a, b: (lambda t: [z3.If(t == 0, a, b), R0, R0])
            half = h / 2
            g += m.both("faceCells", k, INT, side(iv(0), n - 1), two, True)
            g += m.both("cf", k, VEC, vec(R0, R1), two, True)
            g += m.both("cn", k, VEC, vec(half, 1 - half), two, True)
            g += m.both("sf", k, VEC, vec(-R1, R1), two, True)
            g += m.both("magSf", k, "double", lambda t: [R1], two, True)
            g += m.both("nf", k, VEC, vec(-R1, R1), two, True)
            g += m.both("delta", k, VEC, vec(-half, half), two, True)
            g += m.both("weights", k, "double", lambda t: [R1], two, True)
            D, sqrt = m.field("delta", VEC, True)[1], z3.Function("sqrt", R, R)
            g += m.both("deltaCoeffs", k, "double", lambda t: [1 / sqrt(sum((x * x for x in D(t)[1:]), D(t)[0] * D(t)[0]))], two, True)
            off = c.X.load(m.st, m.w.get(m.st, m.bm, BM, "offset"))
            g.append(("one face per patch", z3.And(off.n == 3, *[off.arr[i] == i for i in range(3)])))
            return g
        c.expect("create1DUniformMesh, %s" % EXECS[k], outs, rel, cover=("v",))
    return f


def consistent(c):
    """lemmas over the contract: the stated geometry is a mesh of the unit interval"""
    n, i = z3.Ints("n i")
    h = z3.Real("h")
    r = z3.ToReal
    ok = [n >= 1, h == 1 / r(n)]
    c.lemma("the cells' volumes add up to the domain", r(n) * h == 1, ok)
    xc = lambda t: (r(t) + z3.RealVal("1/2")) * h
    c.lemma("every internal face lies half way between its two cells", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1), (r(i) + 1) * h - xc(i) == xc(i + 1) - (r(i) + 1) * h)), ok)
    s = z3.Real("s")
    c.lemma("the boundary coefficients are one over half a cell", 1 / s == 2 / h, ok + [s >= 0, s * s == (h / 2) * (h / 2)])
    c.lemma("the cells at the ends are half a cell away from the boundary faces", z3.And(xc(iv(0)) == h / 2, 1 - xc(n - 1) == h / 2), ok)


CONTRACTS = [("create1DUniformMesh: %s" % EXECS[k], made(k)) for k in range(3)] + [("the generated geometry is consistent", consistent)]
