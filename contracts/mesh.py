"""abstract meshes and geometric fields: every stored field is arbitrary storage; which member plays which role is found by calling
the class's own accessors, never by member name"""
from .common import *
from .fields import *

CC = "NeoFOAM::finiteVolume::cellCentred::"
MESH = "NeoFOAM::UnstructuredMesh"


class World:
    """symbolic objects of one contract; reg: storage root -> handle of the field that owns it"""

    def __init__(self, c, k):
        self.c, self.k, self.reg = c, k, {}
        self.ex = executor(c, k)
        self.mesh = None
        self.shared = {}
        self.refs = []      # (part of a type, what a reference member of such a type refers to)

    def value(self, st, ty, name):
        """an arbitrary object of this type, its fields on executor alternative k"""
        c = self.c
        if ty.k == "ref":
            if self.mesh is not None and "UnstructuredMesh" in str(ty):
                return st, self.mesh
            for n, p in self.refs:
                if n in str(ty):
                    return st, p
            raise Unsupported("reference member %s" % ty)
        ty = ty.strip()
        kd = c.S.kind(ty)
        if kd == "var" and str(ty) == str(c.T("NeoFOAM::Executor").strip()):
            return st, self.ex
        if kd == "ptr" and ty.name == "std::shared_ptr":
            # objects shared through the mesh (geometry scheme, sparsity pattern): one per type
            s = str(ty.args[0])
            if s not in self.shared:
                st, self.shared[s] = self.obj(st, s, "shared_%s" % ty.args[0].name.split("::")[-1])
            return st, self.shared[s]
        if kd == "struct":
            s = str(ty)
            if s.startswith("NeoFOAM::Field<"):
                st, fv, v = mkfield(c, st, ty.args[0], name, self.k, at=True, ex=self.ex)
                self.reg[fv.root] = fv
                return st, v
            f = {}
            for n, t in c.S.fields(ty):
                st, f[n] = self.value(st, t, "%s.%s" % (name, n))
            return st, St(ty, f)
        if kd == "opt":
            return st, OptV(ty.args[0], z3.Bool(name + ".has"), c.S.fresh(ty.args[0]) if c.S.kind(ty.args[0]) != "ptr" else NULL)
        return st, c.S.fresh(ty, name)

    def obj(self, st, ty, name):
        st, v = self.value(st, self.c.T(ty), name)
        st = st.copy()
        st.store[name] = v
        return st, Path(name)

    # -------------------------------------------------------------- observers
    def get(self, st, p, cls, name, const=None):
        """the value an accessor returns (single outcome)"""
        c = self.c
        d = accessor(c, cls, name, const)
        o = [x for x in c.X.call(st, d, p, [])]
        if len(o) != 1 or o[0].k != "v":
            raise Unsupported("accessor %s" % name)
        return o[0].v

    def field(self, st, p, cls, name, const=None):
        """the field an accessor refers to: its registered handle with the path of the object"""
        r = self.get(st, p, cls, name, const)
        return self.at(st, r)

    def at(self, st, r):
        root = root_of(self.c, st, r)
        fv = self.reg.get(root)
        if fv is None:
            raise Unsupported("field with storage %s" % root)
        fv.path = r if isinstance(r, Path) else None
        return fv


def accessor(c, cls, name, const=None):
    """a method without parameters, looked up through the bases"""
    t = c.T(cls)
    todo = [t]
    while todo:
        b = todo.pop(0)
        k = c.u.find_class(b)
        if k is None:
            continue
        ms = [m for m in c.u.methods(k) if m.get("name") == name and not c.u.params(m) and not m.get("explicitlyDeleted") and (const is None or c.u.is_const(m) == const)]
        if ms:
            ms = sorted(ms, key=lambda m: not c.u.is_const(m))
            return c.u.definition(ms[0]) or ms[0]
        todo += c.u.bases(k)
    raise Unsupported("no accessor %s of %s" % (name, cls))


class MeshV:
    """an arbitrary mesh whose addressing is consistent"""

    def __init__(self, w, st, name="mesh"):
        c = w.c
        self.w = w
        st, self.path = w.obj(st, MESH, name)
        w.mesh = self.path
        g = lambda n: w.get(st, self.path, MESH, n)
        num = lambda n: c.X.load(st, g(n))
        self.nC, self.nI, self.nB, self.nP, self.nF = num("nCells"), num("nInternalFaces"), num("nBoundaryFaces"), num("nBoundaries"), num("nFaces")
        for x in (self.nC, self.nI, self.nB, self.nP, self.nF):
            st = st.assume(z3.And(x >= 0, x <= BIG))
        st = st.assume(self.nF == self.nI + self.nB)
        F = lambda n: w.at(st, g(n))
        bm = g("boundaryMesh")
        self.bm = bm
        G = lambda n: w.at(st, w.get(st, bm, "NeoFOAM::BoundaryMesh", n))
        self.owner, self.neighbour, self.vol = F("faceOwner"), F("faceNeighbour"), F("cellVolumes")
        self.areas, self.magAreas, self.faceCentres, self.cellCentres = F("faceAreas"), F("magFaceAreas"), F("faceCentres"), F("cellCentres")
        self.faceCells = G("faceCells")
        sizes = [(self.owner, self.nF), (self.neighbour, self.nI), (self.vol, self.nC), (self.areas, self.nF), (self.magAreas, self.nF), (self.faceCentres, self.nF), (self.cellCentres, self.nC), (self.faceCells, self.nB)]
        self.bdelta = G("deltaCoeffs")
        sizes.append((self.bdelta, self.nB))
        for fv, n in sizes:
            st = st.assume(fv.n == n)
        for a, n in ((self.neighbour, self.nI), (self.owner, self.nF), (self.faceCells, self.nB)):
            st = st.assume(inside(a.arr, n, self.nC))
        st = st.assume(positive(self.vol.arr, self.nC))
        # patch offsets: 0 = offset[0] <= ... <= offset[nBoundaries] = nBoundaryFaces
        off = c.X.load(st, w.get(st, bm, "NeoFOAM::BoundaryMesh", "offset"))
        if not isinstance(off, SeqV):
            raise Unsupported("patch offsets")
        self.off = off
        t = z3.Int(fresh_name("t"))
        u = z3.Int(fresh_name("u"))
        st = st.assume(z3.And(off.n == self.nP + 1, off.arr[0] == 0, off.arr[self.nP] == self.nB))
        st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= self.nP), z3.And(0 <= off.arr[t], off.arr[t] <= self.nB)), patterns=[off.arr[t]]))
        st = st.assume(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t <= u, u <= self.nP), off.arr[t] <= off.arr[u]), patterns=[z3.MultiPattern(off.arr[t], off.arr[u])]))
        self.st = st

    def same(self, s):
        """the mesh itself is unchanged"""
        c = self.w.c
        ok = [unchanged_at(c, s, self.path, f) for f in (self.owner, self.neighbour, self.vol, self.areas, self.magAreas, self.faceCentres, self.cellCentres, self.faceCells, self.bdelta)]
        return ("the mesh is unchanged", z3.And(*ok))


def unchanged_at(c, s, path, fv):
    return unchanged(c, s, fv)


def inside(arr, n, lim):
    t = z3.Int(fresh_name("t"))
    return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(0 <= arr[t], arr[t] < lim)), patterns=[arr[t]])


def positive(arr, n):
    t = z3.Int(fresh_name("t"))
    return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), arr[t] > 0), patterns=[arr[t]])


class GeoV:
    """a geometric field (cell or face centred) over the mesh"""

    def __init__(self, w, st, kind, ety, name, mesh, **kw):
        st, p = w.obj(st, CC + kind + "<%s>" % ety, name)
        self.init(w, st, kind, ety, p, mesh)

    @classmethod
    def at(cls, w, st, kind, ety, path, mesh):
        """the field stored at this place"""
        g = cls.__new__(cls)
        g.init(w, st, kind, ety, path, mesh)
        return g

    def init(self, w, st, kind, ety, path, mesh, cls=None):
        c = w.c
        self.w, self.ety, self.mesh = w, ety, mesh
        self.cls = CC + kind + "<%s>" % ety if cls is None else cls
        self.path = path
        self.int = w.field(st, self.path, self.cls, "internalField", True)
        bf = w.get(st, self.path, self.cls, "boundaryField", True)
        self.bf = bf
        B = "NeoFOAM::BoundaryFields<%s>" % ety
        g = lambda n: w.field(st, bf, B, n, True)
        self.value, self.ref, self.frac, self.grad = g("value"), g("refValue"), g("valueFraction"), g("refGrad")
        self.types, self.off = g("boundaryTypes"), g("offset")
        st = st.assume(self.int.n == (mesh.nC if kind == "VolumeField" else mesh.nF))
        for f in (self.value, self.ref, self.frac, self.grad):
            st = st.assume(f.n == mesh.nB)
        st = st.assume(z3.And(self.off.n == mesh.nP + 1, self.types.n == mesh.nP))
        t = z3.Int(fresh_name("t"))
        st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= mesh.nP), z3.And(self.off.arr[t] <= mesh.off.arr[t], mesh.off.arr[t] <= self.off.arr[t])), patterns=[self.off.arr[t]]))
        for n, v in (("nBoundaries", mesh.nP), ("nBoundaryFaces", mesh.nB)):
            st = st.assume(c.X.load(st, w.get(st, bf, B, n)) == v)
        self.st = st

    def all(self):
        return [self.int, self.value, self.ref, self.frac, self.grad]

    def same(self, s):
        c = self.w.c
        return z3.And(*[unchanged(c, s, f) for f in self.all()])


class DomV(GeoV):
    """a plain domain field laid out over the mesh, as a cell or face centred field stores it"""

    def __init__(self, w, st, kind, ety, name, mesh):
        cls = "NeoFOAM::DomainField<%s>" % ety
        st, p = w.obj(st, cls, name)
        self.init(w, st, kind, ety, p, mesh, cls)
