"""abstract view of Field objects: found by kind (the pointer, the length, the executor), not by member name"""
import z3
from cxv.sym import *
from cxv.ast import Ty, Unsupported

EXECS = ["SerialExecutor", "CPUExecutor", "GPUExecutor"]
BIG = 2 ** 31 - 2        # labels are 32 bit: sizes the library can address


def slots(c, ty):
    """names of the pointer, size and executor members"""
    ptr = [n for n, t in c.S.fields(ty) if t.k == "ptr"]
    sz = [n for n, t in c.S.fields(ty) if t.k == "int"]
    ex = [n for n, t in c.S.fields(ty) if c.S.kind(t) == "var"]
    if len(ptr) != 1 or len(sz) != 1 or len(ex) != 1:
        raise Unsupported("representation of %s" % ty)
    return ptr[0], sz[0], ex[0]


def executor(c, k):
    """an executor of alternative k (None: arbitrary)"""
    ty = c.T("NeoFOAM::Executor").strip()
    if c.S.kind(ty) != "var":
        raise Unsupported("Executor is not a variant")
    i = iv(k) if k is not None else z3.Int(fresh_name("exec"))
    if k is None:
        c.S.fact(z3.And(i >= 0, i < len(ty.args)))
    return VarV(list(ty.args), i, [c.S.fresh(t) for t in ty.args])


class FV:
    """handle on one field object"""

    def __init__(self, c, path, ty, root, n, arr, ex):
        self.c, self.path, self.ty, self.root, self.n, self.arr, self.ex = c, path, ty, root, n, arr, ex


def mkfield(c, st, ety, name, k=0, n=None, at=None, arr=None, ex=None):
    """an arbitrary valid Field<ety> on executor alternative k; returns state, FV"""
    ty = c.T("NeoFOAM::Field<%s>" % ety) if isinstance(ety, str) else Ty("named", "NeoFOAM::Field", (ety,))
    e = ty.args[0]
    p, s, x = slots(c, ty)
    n = n if n is not None else z3.Int("%s_n" % name)
    c.S.fact(z3.And(n >= 0, n <= BIG))
    arr = arr if arr is not None else z3.Const("%s_arr" % name, z3.ArraySort(I, c.S.sort(e)))
    root = "%s_data" % name
    st = st.copy()
    st.store[root] = SeqV(e, n, arr)
    ex = ex if ex is not None else executor(c, k)
    if k is not None:
        c.X.kokkos.spaces[root] = "NeoFOAM::" + EXECS[k]
    v = St(ty, {p: Path(root, (("i", iv(0)),)), s: n, x: ex})
    if at is None:
        st.store[name] = v
        return st, FV(c, Path(name), ty, root, n, arr, ex)
    return st, FV(c, None, ty, root, n, arr, ex), v


def view(c, st, ety, name, n=None, const=True):
    """a View over foreign storage"""
    e = c.T(ety)
    n = n if n is not None else z3.Int("%s_n" % name)
    c.S.fact(z3.And(n >= 0, n <= BIG))
    arr = z3.Const("%s_arr" % name, z3.ArraySort(I, c.S.sort(e)))
    root = "%s_data" % name
    st = st.copy()
    st.store[root] = SeqV(e, n, arr)
    vt = c.T("NeoFOAM::View<%s%s>" % ("const " if const else "", ety))
    v = St(vt, {"$span": SpanV(Path(root), iv(0), n, e)})
    for f, t in c.S.fields(vt):
        if f != "$span":
            v = v.with_(f, c.S.fresh(t))
    return st, v, n, arr


def data(c, s, fv):
    """(length, array, size member, executor) of the field object in state s"""
    v = c.X.load(s, fv.path if isinstance(fv, FV) else fv)
    return val_data(c, s, v)


def val_data(c, s, v):
    p, sz, x = slots(c, v.cls)
    q = v.f[p]
    if q is NULL:
        return iv(0), None, v.f[sz], v.f[x]
    b = c.X.read(s, Path(q.root, q.steps[:-1]) if q.steps and q.steps[-1][0] == "i" else q)
    if not isinstance(b, SeqV):
        return iv(0), None, v.f[sz], v.f[x]
    return b.n, b.arr, v.f[sz], v.f[x]


def root_of(c, s, v):
    v = c.X.load(s, v)
    q = v.f[slots(c, v.cls)[0]]
    return q.root if isinstance(q, Path) else None


def unchanged(c, s, fv):
    n, arr, sz, ex = data(c, s, fv)
    if arr is None:
        return z3.BoolVal(False)
    t = z3.Int(fresh_name("t"))
    return z3.And(sz == fv.n, n == fv.n, ex.idx == fv.ex.idx, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < fv.n), eqel(c, fv.ty.args[0], arr[t], fv.arr[t]))))


def eqel(c, ety, a, b):
    """equality of elements by observable components"""
    return z3.And(*[x == y for x, y in zip(comps(c, ety, a), comps(c, ety, b))])


def comps(c, ety, t):
    """numeric components of an element term"""
    k = c.S.kind(ety)
    if k == "struct":
        so = c.S.sort(ety)
        r = []
        for i, (n, ft) in enumerate(c.S.fields(ety)):
            r += comps(c, ft, simp(so.accessor(0, i)(t)))
        return r
    if k == "seq" and (ety.k == "arr" or ety.name == "std::array"):
        so = c.S.sort(ety)
        r = []
        for i in range(c.S.fixlen(ety)):
            r += comps(c, c.S.elem(ety), simp(so.accessor(0, i)(t)))
        return r
    return [t]


def elements(c, s, fv, want, n=None, ety=None):
    """every element t of the field has components want(t) (a list), and the field has n elements"""
    m, arr, sz, ex = data(c, s, fv)
    n = fv.n if n is None else n
    if arr is None:
        return z3.And(sz == n, n == 0)
    t = z3.Int(fresh_name("t"))
    e = ety if ety is not None else fv.ty.args[0]
    return z3.And(sz == n, m >= n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(*[a == b for a, b in zip(comps(c, e, arr[t]), want(t))]))))


def execof(c, s, fv):
    """the alternative of the executor the field names"""
    return data(c, s, fv)[3].idx


def others(c, s, *fvs):
    return [("no other field changes", z3.And(*[unchanged(c, s, f) for f in fvs]))] if fvs else []


# ------------------------------------------------------------------ functions of the field classes
def par(c, i, ty):
    """selects by the type of parameter i"""
    return lambda f: len(c.u.params(f)) > i and str(c.u.ty(c.u.params(f)[i]).strip()) == str(c.T(ty).strip())


def meth(c, ty, name, i=None, pty=None, n=None, const=None):
    """a method of a class (template instance); member templates are found by their instantiations"""
    t = c.T(ty)
    cls = c.u.find_class(t)
    if cls is None:
        raise Unsupported("no class %s" % ty)
    ok = lambda m: (pty is None or par(c, i, pty)(m)) and (n is None or len(c.u.params(m)) == n) and (const is None or c.u.is_const(m) == const)
    ms = [m for m in c.u.methods(cls) if m.get("name") == name]
    ms += [f for f in c.u.find_functions("%s::%s" % (t, name)) if f not in ms and (f.get("_parent") or {}).get("kind") == "FunctionTemplateDecl"]
    ds = {}
    for m in ms:
        if m.get("explicitlyDeleted") or not ok(m):
            continue
        d = c.u.definition(m) or m
        if not c.u.is_dependent(d):
            ds[d["id"]] = d
    if len(ds) != 1:
        raise Unsupported("%d methods %s of %s" % (len(ds), name, ty))
    return list(ds.values())[0]


def free(c, qn, more=None):
    cs = [f for f in c.u.find_functions(qn) if more is None or more(f)]
    if len(cs) != 1:
        raise Unsupported("%d functions %s" % (len(cs), qn))
    return cs[0]


def elemval(c, st, ety, name):
    v = c.S.fresh(c.T(ety), name)
    return v, comps(c, c.T(ety), c.S.pack(v, c.T(ety)))


def spanof(c, s, v):
    """(storage root, offset, length) of a view value"""
    v = c.X.load(s, v)
    if isinstance(v, St) and "$span" in v.f:
        v = v.f["$span"]
    if not isinstance(v, SpanV):
        raise Unsupported("not a view")
    off, b = v.off, v.base
    if isinstance(b, Path) and b.steps and b.steps[-1][0] == "i":
        off, b = simp(off + b.steps[-1][1]), Path(b.root, b.steps[:-1])
    return b.root if isinstance(b, Path) else None, off, v.n
